#pragma once
namespace jogasaki::relay { class blob_session_container; }
