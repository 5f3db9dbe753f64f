#pragma once
namespace limestone::api { class blob_pool { public: virtual ~blob_pool(); virtual void release(); }; }
