#include <memory>
#include <string>
#include <vector>
#include <variant>
#include <optional>
#include <queue>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <sstream>
#include <iostream>
#include <thread>
#include <grpcpp/support/status_code_enum.h>
#define private public
#include <jogasaki/udf/generic_record_impl.h>
#undef private
using namespace plugin::udf;
using cursor_t = generic_record_cursor_impl;
using values_t = std::vector<value_type>;
using sz = std::size_t;
extern "C" {
void arbitrary_values(values_t*, int which);
void observe_values(values_t const*, int which);
void observe_error(int which, bool set, int code, char const* p, sz n);
void observe_point(int tag);
void queued(generic_record_impl*);
void monitored(int which, std::mutex*, std::condition_variable*, void* queue, bool* closed, bool* eos);
void begin_op();
void end_op(int result);
}
static void show(generic_record_impl& r, int which) {
    observe_values(&r.values_, which);
    auto& e = r.error();
    if (e) { auto m = e->message(); observe_error(which, true, static_cast<int>(e->code()), m.data(), m.size()); }
    else observe_error(which, false, 0, nullptr, 0);
}
static void shape(generic_record_impl& r, int which, bool err, int code, char const* p, sz n) {
    arbitrary_values(&r.values_, which);
    if (err) r.err_ = error_info(static_cast<error_info::error_code_type>(code), std::string(p, n));
}
#define ERR bool ea, int ca, char const* pa, sz na, bool eb, int cb, char const* pb, sz nb
template <class T> struct copier { static void to(T* o, T const& v) { *o = v; } };
#define FETCH(name, T) extern "C" bool c_fetch_##name(values_t const* v, sz i, sz* j, T* out) { \
    cursor_t c{*v}; c.index_ = i; auto r = c.cursor_t::fetch_##name(); *j = c.index_; if (r) *out = *r; return r.has_value(); }
FETCH(bool, bool) FETCH(int4, std::int32_t) FETCH(int8, std::int64_t) FETCH(uint4, std::uint32_t) FETCH(uint8, std::uint64_t)
FETCH(float, float) FETCH(double, double) FETCH(string, std::string) FETCH(bytes, bytes_value) FETCH(decimal, decimal_value)
FETCH(date, date_value) FETCH(local_time, local_time_value) FETCH(local_datetime, local_datetime_value) FETCH(offset_datetime, offset_datetime_value)
FETCH(blob_reference, blob_reference_value) FETCH(clob_reference, clob_reference_value)
extern "C" bool c_has_next(values_t const* v, sz i, sz* j) { cursor_t c{*v}; c.index_ = i; bool r = c.cursor_t::has_next(); *j = c.index_; return r; }
extern "C" int c_current_kind(values_t const* v, sz i, sz* j) { cursor_t c{*v}; c.index_ = i; *j = i; int r = static_cast<int>(c.cursor_t::current_kind()); *j = c.index_; return r; }
extern "C" bool c_current_is_null(values_t const* v, sz i, sz* j) { cursor_t c{*v}; c.index_ = i; bool r = c.cursor_t::current_is_null(); *j = c.index_; return r; }
extern "C" void c_cursor(ERR) {
    generic_record_impl a; shape(a, 0, ea, ca, pa, na);
    auto c = a.generic_record_impl::cursor();
    auto* p = static_cast<cursor_t*>(c.get());
    observe_point(p->index_ == 0 && &p->values_ == &a.values_ ? 1 : 0);
    show(a, 0);
}
// records
#define ADD(name, T) extern "C" void c_add_##name(T v, ERR) { generic_record_impl a; shape(a, 0, ea, ca, pa, na); a.generic_record_impl::add_##name(v); show(a, 0); } \
    extern "C" void c_add_##name##_null(ERR) { generic_record_impl a; shape(a, 0, ea, ca, pa, na); a.generic_record_impl::add_##name##_null(); show(a, 0); }
#define ADDP(name, T) extern "C" void c_add_##name(T const* v, ERR) { generic_record_impl a; shape(a, 0, ea, ca, pa, na); a.generic_record_impl::add_##name(*v); show(a, 0); } \
    extern "C" void c_add_##name##_null(ERR) { generic_record_impl a; shape(a, 0, ea, ca, pa, na); a.generic_record_impl::add_##name##_null(); show(a, 0); }
ADD(bool, bool) ADD(int4, std::int32_t) ADD(int8, std::int64_t) ADD(uint4, std::uint32_t) ADD(uint8, std::uint64_t) ADD(float, float) ADD(double, double)
ADDP(string, std::string) ADDP(bytes, bytes_value) ADDP(decimal, decimal_value) ADDP(date, date_value) ADDP(local_time, local_time_value)
ADDP(local_datetime, local_datetime_value) ADDP(offset_datetime, offset_datetime_value) ADDP(blob_reference, blob_reference_value) ADDP(clob_reference, clob_reference_value)
extern "C" void c_reset(ERR) { generic_record_impl a; shape(a, 0, ea, ca, pa, na); a.generic_record_impl::reset(); show(a, 0); }
extern "C" void c_set_error(ERR) {
    generic_record_impl a; shape(a, 0, ea, ca, pa, na);
    error_info e(static_cast<error_info::error_code_type>(cb), std::string(pb, nb));
    a.generic_record_impl::set_error(e); show(a, 0);
}
extern "C" void c_assign(ERR) {
    generic_record_impl a, b; shape(a, 0, ea, ca, pa, na); shape(b, 1, eb, cb, pb, nb);
    a.assign_from(std::move(b)); show(a, 0); show(b, 1);
}
// streams: an arbitrary stream, shared with other threads; the record at the head of its queue is b, the caller's record is a
static void share(generic_record_stream_impl& s, int which) { monitored(which, &s.mutex_, &s.cv_, &s.queue_, &s.closed_, &s.eos_); }
extern "C" void c_push(ERR) {
    generic_record_stream_impl s; share(s, 0);
    std::unique_ptr<generic_record_impl> b = std::make_unique<generic_record_impl>(); shape(*b, 1, eb, cb, pb, nb); queued(b.get());
    begin_op(); s.push(std::move(b)); end_op(0);
}
extern "C" void c_end_of_stream() { generic_record_stream_impl s; share(s, 0); begin_op(); s.end_of_stream(); end_op(0); }
extern "C" void c_close() { generic_record_stream_impl s; share(s, 0); begin_op(); s.generic_record_stream_impl::close(); end_op(0); }
extern "C" void c_fresh() { generic_record_stream_impl s; share(s, 2); }
#define STREAM generic_record_stream_impl s; share(s, 0); auto* b = new generic_record_impl; shape(*b, 1, eb, cb, pb, nb); queued(b); \
    generic_record_impl a; shape(a, 0, ea, ca, pa, na); begin_op()
extern "C" void c_try_next(ERR) { STREAM; auto r = s.generic_record_stream_impl::try_next(a); end_op(static_cast<int>(r)); show(a, 0); observe_point(7); }
extern "C" void c_next(ERR) { STREAM; auto r = s.generic_record_stream_impl::next(a, std::nullopt); end_op(static_cast<int>(r)); show(a, 0); observe_point(7); }
extern "C" void c_next_for(long ms, ERR) { STREAM; auto r = s.generic_record_stream_impl::next(a, std::chrono::milliseconds(ms)); end_op(static_cast<int>(r)); show(a, 0); observe_point(7); }
extern "C" void c_move() { generic_record_stream_impl s; share(s, 0); begin_op(); generic_record_stream_impl t{std::move(s)}; end_op(0); share(t, 1); observe_point(8); }
extern "C" void c_move_assign() { generic_record_stream_impl s; share(s, 0); generic_record_stream_impl t; share(t, 1); begin_op(); t = std::move(s); end_op(0); observe_point(9); }
extern "C" int kinds(int* k, int* st) {
    k[0] = (int)runtime_type_kind::null_value; k[1] = (int)runtime_type_kind::boolean; k[2] = (int)runtime_type_kind::int4; k[3] = (int)runtime_type_kind::int8;
    k[4] = (int)runtime_type_kind::uint4; k[5] = (int)runtime_type_kind::uint8; k[6] = (int)runtime_type_kind::float4; k[7] = (int)runtime_type_kind::float8;
    k[8] = (int)runtime_type_kind::string; k[9] = (int)runtime_type_kind::bytes; k[10] = (int)runtime_type_kind::decimal; k[11] = (int)runtime_type_kind::date;
    k[12] = (int)runtime_type_kind::local_time; k[13] = (int)runtime_type_kind::local_datetime; k[14] = (int)runtime_type_kind::offset_datetime;
    k[15] = (int)runtime_type_kind::blob_reference; k[16] = (int)runtime_type_kind::clob_reference;
    st[0] = (int)generic_record_stream::status_type::ok; st[1] = (int)generic_record_stream::status_type::error;
    st[2] = (int)generic_record_stream::status_type::end_of_stream; st[3] = (int)generic_record_stream::status_type::not_ready;
    return (int)sizeof(value_type);
}
