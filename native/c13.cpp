#include "vdrv.h"
#include <thread>
#include <atomic>
#include <deque>
#include <utility>
#include <jogasaki/udf/generic_record_impl.h>
using namespace plugin::udf;
using status = generic_record_stream::status_type;
struct model { std::vector<value_type> v; bool err{false}; int code{}; std::string msg; };

static value_type gen(vdrv& d, int k) {
    switch (k) {
        case 1: return d.coin();
        case 2: return static_cast<std::int32_t>(d.edge64());
        case 3: return static_cast<std::int64_t>(d.edge64());
        case 4: return static_cast<std::uint32_t>(d.edge64());
        case 5: return static_cast<std::uint64_t>(d.edge64());
        case 6: return static_cast<float>(static_cast<std::int32_t>(d.edge64()));
        case 7: return static_cast<double>(static_cast<std::int64_t>(d.edge64()));
        case 8: return d.bytes(40);
        case 9: return bytes_value{d.bytes(40)};
        case 10: return decimal_value{d.bytes(20), static_cast<std::int32_t>(d.edge64())};
        case 11: return date_value{static_cast<std::int32_t>(d.edge64())};
        case 12: return local_time_value{static_cast<std::int64_t>(d.edge64())};
        case 13: return local_datetime_value{static_cast<std::int64_t>(d.edge64()), static_cast<std::uint32_t>(d.edge64())};
        case 14: return offset_datetime_value{static_cast<std::int64_t>(d.edge64()), static_cast<std::uint32_t>(d.edge64()), static_cast<std::int32_t>(d.edge64())};
        case 15: return blob_reference_value{d.edge64(), d.edge64(), d.edge64(), d.coin()};
        case 16: return clob_reference_value{d.edge64(), d.edge64(), d.edge64(), d.coin()};
    }
    return std::monostate{};
}
static std::string str(std::string const& s) { return vdrv::hex(s); }
template <class T> static std::string str1(T const& x) {
    if constexpr (std::is_arithmetic_v<T>) return std::to_string(x);
    else if constexpr (std::is_same_v<T, std::string>) return vdrv::hex(x);
    else if constexpr (std::is_same_v<T, bytes_value>) return vdrv::hex(x.value);
    else if constexpr (std::is_same_v<T, decimal_value>) return vdrv::hex(x.unscaled_value) + "e" + std::to_string(x.exponent);
    else if constexpr (std::is_same_v<T, date_value>) return std::to_string(x.days);
    else if constexpr (std::is_same_v<T, local_time_value>) return std::to_string(x.nanos);
    else if constexpr (std::is_same_v<T, local_datetime_value>) return std::to_string(x.offset_seconds) + "." + std::to_string(x.nano_adjustment);
    else if constexpr (std::is_same_v<T, offset_datetime_value>) return std::to_string(x.offset_seconds) + "." + std::to_string(x.nano_adjustment) + "@" + std::to_string(x.time_zone_offset);
    else if constexpr (std::is_same_v<T, std::monostate>) return "NULL";
    else return std::to_string(x.storage_id) + "/" + std::to_string(x.object_id) + "/" + std::to_string(x.tag) + "/" + (x.provisioned ? "p" : "-");
}
static std::string show(value_type const& v) { return "#" + std::to_string(v.index()) + ":" + std::visit([](auto const& x) { return str1(x); }, v); }

#define KINDS(X) X(1, bool, bool) X(2, int4, std::int32_t) X(3, int8, std::int64_t) X(4, uint4, std::uint32_t) X(5, uint8, std::uint64_t) X(6, float, float) X(7, double, double) \
    X(8, string, std::string) X(9, bytes, bytes_value) X(10, decimal, decimal_value) X(11, date, date_value) X(12, local_time, local_time_value) X(13, local_datetime, local_datetime_value) \
    X(14, offset_datetime, offset_datetime_value) X(15, blob_reference, blob_reference_value) X(16, clob_reference, clob_reference_value)

static void add(generic_record_impl& r, int k, value_type const& v, bool null) {
#define A(i, n, T) case i: if (null) r.add_##n##_null(); else r.add_##n(std::get<T>(v)); break;
    switch (k) { KINDS(A) }
}
static std::optional<value_type> fetch(generic_record_cursor& c, int k) {
#define G(i, n, T) case i: { auto o = c.fetch_##n(); if (o) return value_type{std::in_place_type<T>, *o}; return std::nullopt; }
    switch (k) { KINDS(G) }
    return std::nullopt;
}
static void fill(vdrv& d, generic_record_impl& r, model& m, std::string& h) {
    for (int i = 0, n = d.below(6); i < n; ++i) {
        int k = 1 + d.below(16); bool null = d.below(4) == 0; auto v = gen(d, k);
        if (null) v = std::monostate{};
        h += " add" + std::to_string(k) + show(v);
        add(r, k, v, null); m.v.push_back(v);
    }
    if (d.below(4) == 0) { m.err = true; m.code = d.below(17); m.msg = d.bytes(30); h += " error" + std::to_string(m.code) + ":" + vdrv::hex(m.msg);
        r.set_error(error_info(static_cast<grpc::StatusCode>(m.code), m.msg)); }
}
static void same(vdrv& d, generic_record_impl& r, model const& m, std::string const& h) {
    d.input(h);
    auto const& e = std::as_const(r).error();
    d.check(e.has_value() == m.err, h + ": error present " + std::to_string(e.has_value()));
    if (e && m.err) d.check(static_cast<int>(e->code()) == m.code && e->message() == m.msg, h + ": error " + std::to_string(static_cast<int>(e->code())) + ":" + vdrv::hex(e->message()));
    auto c = r.cursor();
    for (std::size_t i = 0; i < m.v.size(); ++i) {
        auto const& v = m.v[i]; std::string w = h + " | field " + std::to_string(i);
        d.check(c->has_next(), w + ": has_next");
        d.check(static_cast<std::size_t>(c->current_kind()) == v.index(), w + ": current_kind " + std::to_string(static_cast<int>(c->current_kind())));
        d.check(c->current_is_null() == (v.index() == 0), w + ": current_is_null");
        int k = d.below(5) ? static_cast<int>(v.index()) : d.below(16) + 1; if (k == 0) k = 1 + d.below(16);
        auto f = fetch(*c, k);
        d.check(f.has_value() == (v.index() == static_cast<std::size_t>(k)), w + ": fetch" + std::to_string(k) + " has a value: " + std::to_string(f.has_value()));
        if (f && v.index() == static_cast<std::size_t>(k)) d.check(show(*f) == show(v), w + ": fetched " + show(*f) + " expected " + show(v));
    }
    d.check(!c->has_next() && !c->current_is_null(), h + ": end of the record");
    d.check(!fetch(*c, 1 + d.below(16)), h + ": fetch past the end");
    bool thrown = false; try { (void)c->current_kind(); } catch (std::out_of_range const&) { thrown = true; }
    d.check(thrown, h + ": current_kind past the end");
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    long round = 0;
    while (d.running()) {
        std::string h = "record"; model m; generic_record_impl r; d.input(h);
        fill(d, r, m, h); same(d, r, m, h);
        { model m2; generic_record_impl r2; std::string h2 = h + " ; assign_from"; fill(d, r2, m2, h2); d.input(h2);
          r.assign_from(std::move(r2)); same(d, r, m2, h2); same(d, r2, model{}, h2 + " source"); m = m2; }
        if (d.coin()) { r.reset(); m = model{}; same(d, r, m, h + " ; reset"); }
        // a stream against a reference queue
        std::string s = "stream"; auto st = std::make_unique<generic_record_stream_impl>(); std::deque<model> q; bool eos = false, closed = false;
        for (int i = 0, n = d.below(14); i < n; ++i) {
            switch (d.below(8)) {
                case 0: case 1: case 2: { auto p = std::make_unique<generic_record_impl>(); model x; s += " push("; fill(d, *p, x, s); s += ")"; d.input(s);
                    st->push(std::move(p)); if (!eos && !closed) q.push_back(x); break; }
                case 3: if (d.below(3) == 0) { s += " end_of_stream"; d.input(s); st->end_of_stream(); eos = true; } break;
                case 4: if (d.below(6) == 0) { s += " close"; d.input(s); st->close(); eos = closed = true; q.clear(); } break;
                case 5: if (d.below(3) == 0) { s += " move"; d.input(s);
                    if (d.coin()) { auto t = std::make_unique<generic_record_stream_impl>(std::move(*st)); generic_record_impl x; d.check(st->try_next(x) == status::end_of_stream, s + ": moved-from"); st = std::move(t); }
                    else { auto t = std::make_unique<generic_record_stream_impl>(); *t = std::move(*st); generic_record_impl x; d.check(st->try_next(x) == status::end_of_stream, s + ": moved-from"); st = std::move(t); } } break;
                default: { bool tm = d.coin(); generic_record_impl x; model own; std::string t = s + (tm ? " next" : " try_next"); fill(d, x, own, t); s = t; d.input(s);
                    auto res = tm ? st->next(x, (q.empty() && !eos) || d.coin() ? std::optional<std::chrono::milliseconds>(d.below(2)) : std::nullopt) : st->try_next(x);
                    status want = !q.empty() ? (q.front().err ? status::error : status::ok) : eos ? status::end_of_stream : status::not_ready;
                    d.check(res == want, s + ": result " + std::to_string(static_cast<int>(res)) + " expected " + std::to_string(static_cast<int>(want)));
                    if (!q.empty()) { same(d, x, q.front(), s); q.pop_front(); } else same(d, x, own, s); break; }
            }
        }
        if (round++ % 3000 == 0) {   // a sleeping reader is woken
            for (int how = 0; how < 5; ++how) {
                std::string w = std::string("reader asleep, then ") + (how == 0 ? "push" : how == 1 ? "end_of_stream" : how == 2 ? "close" : how == 3 ? "assigned a stream with a record" : "moved from"); d.input(w);
                generic_record_stream_impl z; status res{}; auto t0 = std::chrono::steady_clock::now();
                std::thread rd([&] { generic_record_impl x; res = z.next(x, std::chrono::milliseconds(4000)); });
                std::this_thread::sleep_for(std::chrono::milliseconds(40));
                if (how == 0) z.push(std::make_unique<generic_record_impl>()); else if (how == 1) z.end_of_stream(); else if (how == 2) z.close();
                else if (how == 4) { generic_record_stream_impl y{std::move(z)}; }
                else { generic_record_stream_impl y; y.push(std::make_unique<generic_record_impl>()); z = std::move(y); }
                rd.join();
                auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
                d.check(res == (how == 0 || how == 3 ? status::ok : status::end_of_stream) && ms < 3800, w + ": result " + std::to_string(static_cast<int>(res)) + " after " + std::to_string(ms) + " ms");
            }
            // two sleeping readers, two records at once
            for (int i = 0; i < 60; ++i) {
                std::string w = "two readers asleep, then two records pushed"; d.input(w); generic_record_stream_impl z; std::atomic<int> late{0};
                auto rd = [&] { generic_record_impl x; auto t0 = std::chrono::steady_clock::now(); auto r = z.next(x, std::chrono::milliseconds(2000)); if (r != status::ok || std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(1900)) ++late; };
                std::thread a(rd), b(rd); std::this_thread::sleep_for(std::chrono::milliseconds(3));
                auto p = std::make_unique<generic_record_impl>(), q2 = std::make_unique<generic_record_impl>(); z.push(std::move(p)); z.push(std::move(q2));
                a.join(); b.join(); d.check(late == 0, w + ": one reader is not woken");
            }
        }
    }
    return d.done();
}
