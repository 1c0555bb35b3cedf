// Simulated character devices behind the C++ stream interface. They count every byte the device
// accepted or delivered and fail exactly where the plan says.
#ifndef SIM_DEVICE_H
#define SIM_DEVICE_H
#include <streambuf>
#include <string>
#include <vector>
#include "machine.h"

struct OutDev : public std::streambuf {
    StreamFault f; std::string got; bool healed = false; u64 fired = 0; bool once_done = false;
    std::vector<char> buf;
    explicit OutDev(const StreamFault& sf) : f(sf) {
        if (f.chunk) { buf.resize(f.chunk); setp(buf.data(), buf.data() + buf.size()); }
    }
    // hand n bytes to the device, returns how many it took
    size_t device(const char* s, size_t n) {
        seam_device();
        bool faulty = !healed && f.mode >= 1 && f.mode <= 4 && !(once_done && (f.mode == 2 || f.mode == 4));
        size_t take = n;
        if (faulty && got.size() + n > f.n) {
            take = got.size() < f.n ? (size_t)(f.n - got.size()) : 0;
            if (take > n) take = n;
            bool a = g_seam.armed; g_seam.armed = false; got.append(s, take); g_seam.armed = a;
            once_done = true; ++fired;
            if (f.mode >= 3) throw ThrowDev{(int)got.size()};
            return take;
        }
        bool a = g_seam.armed; g_seam.armed = false; got.append(s, take); g_seam.armed = a;
        return take;
    }
    bool drain() {
        size_t n = pptr() - pbase();
        if (!n) return true;
        size_t before = got.size();
        struct Fix { OutDev* d; size_t before, n;
            ~Fix() { size_t sent = d->got.size() - before; char* b = d->buf.data(); std::copy(b + sent, b + n, b);
                d->setp(b, b + d->buf.size()); d->pbump((int)(n - sent)); } } fix{this, before, n};
        return device(pbase(), n) == n;
    }
    int_type overflow(int_type c) override {
        if (buf.empty()) {
            if (c == traits_type::eof()) return traits_type::not_eof(c);
            char ch = (char)c; return device(&ch, 1) == 1 ? c : traits_type::eof();
        }
        if (!drain()) return traits_type::eof();
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        *pptr() = (char)c; pbump(1); return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (buf.empty()) return (std::streamsize)device(s, (size_t)n);
        return std::streambuf::xsputn(s, n);
    }
    int sync() override { return drain() ? 0 : -1; }
    void heal() { healed = true; if (!buf.empty()) setp(buf.data(), buf.data() + buf.size()); got.clear(); }
};

struct InDev : public std::streambuf {
    StreamFault f; std::string text; size_t pos = 0; bool healed = false, once_done = false; u64 fired = 0; size_t base = 0;
    std::vector<char> buf;
    InDev(const StreamFault& sf, const std::string& t) : f(sf), text(t), buf(sf.chunk ? sf.chunk : 1) {}
    size_t consumed() const { return pos - (egptr() - gptr()); }
    // where delivery currently stops (text end, or the fault point while it is still ahead or active)
    size_t barrier() const {
        bool faulty = !healed && f.mode >= 1 && f.mode <= 4 && !(once_done && (f.mode == 2 || f.mode == 4));
        return faulty && f.n < text.size() ? (size_t)f.n : text.size();
    }
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        seam_device();
        size_t lim = barrier();
        if (pos >= lim) {
            if (lim < text.size()) { once_done = true; ++fired; if (f.mode >= 3) throw ThrowDev{(int)pos}; }
            return traits_type::eof();
        }
        size_t n = lim - pos; if (n > buf.size()) n = buf.size();
        std::copy(text.begin() + pos, text.begin() + pos + n, buf.begin());
        pos += n; setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
    void heal() { healed = true; }
};
#endif
