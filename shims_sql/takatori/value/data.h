#pragma once
namespace takatori::value { class data { public: int kind_{}; }; }
