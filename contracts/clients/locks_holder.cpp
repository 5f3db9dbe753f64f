#include <jogasaki/storage/storage_manager.cpp>
using namespace jogasaki::storage;
using ctl = impl::storage_control;
extern "C" void c_holder(ctl* c, bool shared, bool keep) {
    lock_holder<std::shared_ptr<ctl>> h{std::shared_ptr<ctl>{std::shared_ptr<ctl>{}, c}, shared};
    if (keep) h.unhold();
}
