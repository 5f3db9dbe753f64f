#pragma once
namespace jogasaki { class request_context; }
