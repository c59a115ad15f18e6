// libFuzzer target: the request parsers of both ports.
//
// First byte selects the parser; the rest is what has been received so far, in a
// block of exactly that size, so that the address sanitizer sees any read past it.
// Oracle, besides the sanitizers: a parsed request lies within the input, its
// fields lie within it, it parses the same whether or not more bytes follow, and
// no proper prefix of it is taken for a complete request.
#include <src/memcache/memcache.hpp>
#include <src/counter/counter.hpp>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <vector>

using namespace yrmcds;

static void die(const char* what) {
    std::fprintf(stderr, "PARSER ORACLE: %s\n", what);
    std::abort();
}

struct result {
    std::size_t len = 0;
    long kind = 0, status = 0, flags = 0;
    std::uint64_t a = 0, b = 0, c = 0;
    std::vector<std::pair<long, std::size_t>> items; // offset, length
    bool operator==(const result& o) const {
        return len == o.len && kind == o.kind && status == o.status && flags == o.flags &&
            a == o.a && b == o.b && c == o.c && items == o.items;
    }
};

struct block {
    char* p;
    std::size_t n;
    block(const std::uint8_t* d, std::size_t n): p((char*)std::malloc(n)), n(n) {
        std::memcpy(p, d, n);
    }
    ~block() { std::free(p); }
};

static void add(result& r, const block& b, const char* p, std::size_t n) {
    if( n == 0 ) {
        r.items.emplace_back(-1, 0);
        return;
    }
    if( p < b.p || p + n > b.p + r.len ) die("a field lies outside of its request");
    r.items.emplace_back(p - b.p, n);
}

static result parse(int mode, const std::uint8_t* d, std::size_t n) {
    block b(d, n);
    result r;
    using std::get;
    if( mode == 0 ) {
        memcache::text_request q(b.p, n);
        r.len = q.length();
        if( r.len > n ) die("text request longer than the input");
        if( r.len == 0 ) return r;
        r.status = q.valid();
        if( ! q.valid() ) return r;
        r.kind = (long)q.command();
        r.flags = (long)q.flags() * 2 + q.no_reply();
        r.a = q.cas_unique();
        r.b = q.value();
        add(r, b, get<0>(q.key()), get<1>(q.key()));
        add(r, b, get<0>(q.data()), get<1>(q.data()));
        if( q.command() == memcache::text_command::GET ||
            q.command() == memcache::text_command::GETS ) {
            std::size_t guard = 0;
            for( auto k = q.first_key(); k != memcache::text_request::eos; k = q.next_key(k) ) {
                add(r, b, get<0>(k), get<1>(k));
                if( get<1>(k) == 0 ) die("empty key in get");
                if( ++guard > n ) die("endless keys");
            }
        }
    } else if( mode == 1 ) {
        memcache::binary_request q(b.p, n);
        r.len = q.length();
        if( r.len > n ) die("binary request longer than the input");
        if( r.len == 0 ) return r;
        if( r.len < 24 ) die("binary request shorter than a header");
        r.status = (long)q.status();
        if( q.opaque() != b.p + 12 ) die("opaque");
        if( q.status() != memcache::binary_status::OK ) return r;
        r.kind = (long)q.command();
        r.flags = (long)q.flags() * 2 + q.quiet();
        r.a = q.cas_unique();
        r.b = q.value();
        r.c = q.initial();
        add(r, b, get<0>(q.key()), get<1>(q.key()));
        add(r, b, get<0>(q.data()), get<1>(q.data()));
    } else {
        counter::request q(b.p, n);
        r.len = q.length();
        if( r.len > n ) die("counter request longer than the input");
        if( r.len == 0 ) return r;
        if( r.len < 12 ) die("counter request shorter than a header");
        r.status = (long)q.status();
        if( q.opaque() != b.p + 8 ) die("opaque");
        if( q.status() != counter::status::OK ) return r;
        r.kind = (long)q.command();
        r.a = q.resources();
        r.b = q.maximum();
        add(r, b, q.name().p, q.name().len);
    }
    return r;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
    if( n < 2 ) return 0;
    int mode = d[0] % 3;
    ++d; --n;
    std::vector<std::uint8_t> fixed(d, d + n);
    if( mode == 1 ) fixed[0] = 0x80;
    else if( mode == 0 && fixed[0] == 0x80 ) fixed[0] = 'g';
    d = fixed.data();
    std::size_t at = 0;
    unsigned steps = 0;
    while( at < n && steps++ < 64 ) {
        if( mode != 2 ) {
            bool bin = d[at] == 0x80;
            mode = bin ? 1 : 0;
        }
        result r = parse(mode, d + at, n - at);
        if( r.len == 0 ) break;
        if( ! (parse(mode, d + at, r.len) == r) ) die("depends on what follows the request");
        std::size_t cuts[] = {r.len - 1, r.len / 2, (r.len * 7) / 11, 1};
        for( std::size_t c: cuts ) {
            if( c == 0 || c >= r.len ) continue;
            if( parse(mode, d + at, c).len != 0 ) die("a proper prefix was taken as complete");
        }
        at += r.len;
    }
    return 0;
}
