// Framed messages over a lossy byte link: CRC-16/CRC-32 integrity (L01) and serializer interoperability (L02).
// Two stations exchange frames [length][fields...][crc]; the link fragments, damages, drops, duplicates and reorders.
#include <algorithm>
#include <memory>
#include "sim.h"
#include "link_api.h"
using namespace sim;

namespace {
enum { OL_FRAME, OL_FIELDS, OL_BURST, OL_BITS, OL_DROP, OL_DUP, OL_SWAP, OL_FRAG, OL_DELIVER };
enum { C_CRC, C_INIT, C_ALIGN, C_CNT };
enum { F_BURST, F_BITS, F_DROP, F_DUP, F_SWAP, F_FRAG };
enum { P_EMPTY, P_LONG, P_ONEBYTE, P_DAMAGEDCRC, P_REJECT, P_SIGNED, P_MACRO, P_UNALIGNED, P_WIDE };

// memory whose address is known modulo 64, ending exactly at its size (AddressSanitizer watches what follows)
struct Mem {
    uint8_t *base;
    explicit Mem(size_t n) { void *p = nullptr; if (posix_memalign(&p, 64, n ? n : 1)) abort(); base = (uint8_t *)p; }
    ~Mem() { free(base); }
    uint8_t *get() { return base; }
    uint8_t &operator[](size_t i) { return base[i]; }
};
struct Field { int width; bool be, sg, mac; uint64_t v; };
struct Frame {
    std::vector<uint8_t> bytes, clean;
    std::vector<Field>   fields;
    int64_t              frag = 0;
    bool                 damaged = false;
};
uint64_t ref_crc(bool c32, const std::vector<uint8_t> &d, size_t n, uint64_t crc) {      // polynomial division, bit by bit
    int      w = c32 ? 32 : 16;
    uint64_t poly = c32 ? 0x04C11DB7 : 0x1021, top = 1ull << (w - 1), mask = (top << 1) - 1;
    for (size_t i = 0; i < n; i++)
        for (int b = 7; b >= 0; b--) {
            bool in = (d[i] >> b) & 1, hi = (crc & top) != 0;
            crc = (crc << 1) & mask;
            if (in != hi) crc ^= poly;
        }
    return crc;
}
uint64_t mask_of(int w) { return w == 8 ? ~0ull : (1ull << (8 * w)) - 1; }
uint64_t sext(uint64_t v, int w) { int s = 64 - 8 * w; return (uint64_t)((int64_t)(v << s) >> s); }

void gen(Rng &r, Plan &p, int tier, const std::string &) {
    p.cfg = {r.range(0, 1), r.pick<int64_t>({0, 0xFFFF, 0xFFFFFFFF, (int64_t)r.below(1ull << 32)}), r.chance(0.6) ? r.range(0, 7) : r.range(0, 63)};
    int n = (int)r.range(1, tier ? 14 : 8);
    for (int f = 0; f < n; f++) {
        p.ops.push_back(Op(OL_FRAME, r.chance(0.002) ? r.pick<int64_t>({65535, 65536, 65537, r.range(60000, 70000), r.range(65536, 150000)}) : r.chance(0.1) ? r.range(300, 2000) : r.chance(0.3) ? r.range(0, 3) : r.range(0, 60), (int64_t)r.next(), r.chance(0.15) ? r.range(0, 2) : 3));
        int k = (int)r.range(0, 6);
        for (int i = 0; i < k; i++)
            p.ops.push_back(Op(OL_FIELDS, r.range(0, 3), r.range(0, 7), r.chance(0.3) ? r.pick<int64_t>({0, -1, 1, INT64_MIN, INT64_MAX, 0x80, 0x8000, 0x80000000, 0x7F, 0x7FFF, 0x7FFFFFFF, -128}) : (int64_t)r.next()));
        if (r.chance(0.6)) p.ops.push_back(Op(OL_FRAG, r.range(1, 3), (int64_t)r.next()));
        switch (r.weighted({5, 4, 3, 1, 1, 1})) {
            case 1: p.ops.push_back(Op(OL_BURST, (int64_t)(r.next() >> 1), (int64_t)r.next())); break;
            case 2: p.ops.push_back(Op(OL_BITS, r.range(1, 3), (int64_t)(r.next() >> 1), (int64_t)(r.next() >> 1), (int64_t)(r.next() >> 1))); break;
            case 3: p.ops.push_back(Op(OL_DROP)); break;
            case 4: p.ops.push_back(Op(OL_DUP)); break;
            case 5: p.ops.push_back(Op(OL_SWAP)); break;
            default: break;
        }
        if (r.chance(0.4)) p.ops.push_back(Op(OL_DELIVER));
    }
    p.ops.push_back(Op(OL_DELIVER));
}

void run(const Plan &p, Ctx &ctx) {
    auto cfg = [&](int i) { return i < (int)p.cfg.size() ? p.cfg[(size_t)i] : 0; };
    bool c32 = cfg(C_CRC) & 1, l1 = ctx.on("L01"), l2 = ctx.on("L02");
    int  cw  = c32 ? 4 : 2;
    uint64_t init = (uint64_t)cfg(C_INIT) & mask_of(cw);
    size_t   align = (size_t)wrapi(cfg(C_ALIGN), 0, 63);
    std::vector<Frame> queue;
    struct Build { bool open = false; size_t len = 0; uint64_t seed = 0; Frame f; } b;

    auto crc_of = [&](const uint8_t *d, size_t n, uint64_t start) -> uint64_t {
        progress();
        return c32 ? link_crc32(d, n, (uint32_t)start) : link_crc16(d, n, (uint16_t)start);
    };
    // the sender serializes the fields one after the other into a buffer it does not own the ends of
    auto finish = [&] {
        if (!b.open) return;
        b.open = false;
        size_t need = b.len + 8 * b.f.fields.size();
        Mem mem(need + align + 8);
        memset(mem.get(), 0xD7, need + align + 8);
        uint8_t *out = mem.get() + align;
        std::vector<uint8_t> want;
        size_t at = 0;
        for (auto &f : b.f.fields) {
            progress();
            size_t n = link_put(f.width, f.be, f.mac, out + at, f.v);
            if (l2 && n != (size_t)f.width) ctx.fail("size", "serializing a %d-byte field reported %zu bytes", f.width, n);
            for (int k = 0; k < f.width; k++) want.push_back((uint8_t)(f.v >> (8 * (f.be ? f.width - 1 - k : k))));
            at += (size_t)f.width;
            if (f.width == 8) ctx.probe(P_WIDE);
            if (f.sg) ctx.probe(P_SIGNED);
            if (f.mac) ctx.probe(P_MACRO);
        }
        if (align) ctx.probe(P_UNALIGNED);
        if (l2) {
            for (size_t k = 0; k < want.size(); k++)
                if (out[k] != want[k]) ctx.fail("wire-format", "byte %zu of the serialized message is %02x instead of %02x", k, out[k], want[k]);
            for (size_t k = at; k < need + 8; k++) if (out[k] != 0xD7) ctx.fail("overrun", "serializing wrote past the end of the message");
            for (size_t k = 0; k < align; k++) if (mem[k] != 0xD7) ctx.fail("overrun", "serializing wrote before the message");
        }
        b.f.bytes.assign(want.begin(), want.end());
        for (size_t k = 0; k < b.len; k++) b.f.bytes.push_back((uint8_t)Rng::splitmix(b.seed));
        size_t n = b.f.bytes.size();
        if (!n) ctx.probe(P_EMPTY);
        if (n > 256) ctx.probe(P_LONG);
        Mem exact(n + align);         // exact size: reading past it is an error
        memcpy(exact.get() + align, b.f.bytes.data(), n);
        uint64_t c = crc_of(exact.get() + align, n, init), ref = ref_crc(c32, b.f.bytes, n, init);
        ctx.ev("frame", (int64_t)n, (int64_t)c);
        if (l1 && c != ref) ctx.fail("polynomial", "the CRC of a %zu-byte frame is %llx instead of %llx", n, (unsigned long long)c, (unsigned long long)ref);
        for (int k = cw - 1; k >= 0; k--) b.f.bytes.push_back((uint8_t)(c >> (8 * k)));
        b.f.clean = b.f.bytes;
        queue.push_back(b.f);
        b.f = Frame();
    };
    auto receive = [&](const Frame &f) {
        size_t n = f.bytes.size() - (size_t)cw;
        Mem exact(n + align);
        memcpy(exact.get() + align, f.bytes.data(), n);
        uint8_t *d = exact.get() + align;
        uint64_t c = init, seed = (uint64_t)f.frag;
        size_t   at = 0, pieces = 0;
        while (at < n || pieces == 0) {            // the bytes come in pieces, the CRC is carried along
            size_t k = f.frag == 0 ? n - at : (f.frag & 3) == 1 ? 1 : (size_t)(Rng::splitmix(seed) % (f.frag & 4 ? 200 : 9));
            k = std::min(k, n - at);
            c = crc_of(d + at, k, c);
            at += k;
            pieces++;
            if (pieces > 3000) break;
        }
        if (f.frag) ctx.fault(F_FRAG);
        if (at < n) c = crc_of(d + at, n - at, c);
        uint64_t got = 0;
        for (int k = 0; k < cw; k++) got = got << 8 | f.bytes[n + (size_t)k];
        bool good = got == c;
        ctx.ev("receive", (int64_t)n, good, f.damaged, (int64_t)pieces);
        ctx.state((uint64_t)c32 << 20 | (uint64_t)std::min<size_t>(n, 255) << 8 | (uint64_t)std::min<size_t>(pieces, 60) << 1 | good);
        if (l1 && !f.damaged && !good) ctx.fail("false-reject", "an undamaged %zu-byte frame received in %zu pieces is rejected", n, pieces);
        if (l1 && f.damaged && good) ctx.fail("undetected", "a damaged %zu-byte frame is accepted", n);
        if (f.damaged) ctx.probe(P_REJECT);
        // appending the CRC leaves the zero remainder
        if (l1 && !f.damaged) {
            Mem all(f.bytes.size());
            memcpy(all.get(), f.bytes.data(), f.bytes.size());
            if (crc_of(all.get(), f.bytes.size(), init) != 0) ctx.fail("residue", "the CRC over a frame and its CRC is not zero");
        }
        if (f.damaged) return;
        at = 0;
        for (auto &q : f.fields) {
            if (at + (size_t)q.width > n) break;
            uint64_t v = 0x1122334455667788ull;
            progress();
            size_t k = link_get(q.width, q.be, q.sg, q.mac, d + at, &v);
            uint64_t w = q.v & mask_of(q.width);
            if (q.sg) w = sext(w, q.width);
            if (l2 && k != (size_t)q.width) ctx.fail("size", "deserializing a %d-byte field reported %zu bytes", q.width, k);
            if (l2 && v != w) ctx.fail("round-trip", "a %s %d-byte %s field sent as %llx is read as %llx", q.sg ? "signed" : "unsigned", q.width, q.be ? "big-endian" : "little-endian", (unsigned long long)w, (unsigned long long)v);
            ctx.ev("field", q.width, (int64_t)v);
            at += (size_t)q.width;
        }
    };

    for (auto &o : p.ops) {
        ctx.advance(5000);
        switch (o.kind) {
            case OL_FRAME:
                finish();
                b.open = true;
                b.len  = (size_t)clampi(o.a[0], 0, 200000);
                b.seed = (uint64_t)o.a[1];
                break;
            case OL_FIELDS: {
                if (!b.open) break;
                if (b.f.fields.size() >= 16) break;
                Field f;
                f.width = 1 << wrapi(o.a[0], 0, 3);
                f.be = o.a[1] & 1; f.sg = o.a[1] >> 1 & 1; f.mac = o.a[1] >> 2 & 1;
                f.v = (uint64_t)o.a[2];
                b.f.fields.push_back(f);
                break;
            }
            case OL_FRAG: finish(); if (!queue.empty()) { queue.back().frag = wrapi(o.a[0], 1, 3) | (o.a[1] & 4) | ((o.a[1] & 0xFFFFFF) << 3); if ((queue.back().frag & 3) == 1) ctx.probe(P_ONEBYTE); ctx.nontrivial = true; } break;
            case OL_BURST: {
                finish();
                if (queue.empty() || queue.back().damaged) break;
                Frame &f = queue.back();
                size_t bits = f.bytes.size() * 8, at = (size_t)((uint64_t)o.a[0] % bits);
                uint64_t pat = ((uint64_t)o.a[1] & mask_of(cw)) | 1;
                bool any = false;
                for (size_t k = 0; k < (size_t)cw * 8; k++)
                    if (pat >> k & 1 && at + k < bits) { f.bytes[(at + k) / 8] ^= (uint8_t)(0x80 >> ((at + k) % 8)); any = true; if ((at + k) / 8 >= f.bytes.size() - (size_t)cw) ctx.probe(P_DAMAGEDCRC); }
                f.damaged = any;
                ctx.fault(F_BURST);
                ctx.nontrivial = true;
                ctx.ev("burst", (int64_t)at, (int64_t)pat);
                break;
            }
            case OL_BITS: {
                finish();
                if (queue.empty() || queue.back().damaged) break;
                Frame &f = queue.back();
                size_t bits = f.bytes.size() * 8;
                if (bits > 30000) break;
                for (int k = 0; k < (int)wrapi(o.a[0], 1, 3); k++) {
                    size_t at = (size_t)((uint64_t)o.a[1 + k] % bits);
                    f.bytes[at / 8] ^= (uint8_t)(0x80 >> (at % 8));
                }
                f.damaged = f.bytes != f.clean;
                ctx.fault(F_BITS);
                ctx.nontrivial = true;
                ctx.ev("bits");
                break;
            }
            case OL_DROP: finish(); if (!queue.empty()) { queue.pop_back(); ctx.fault(F_DROP); } break;
            case OL_DUP: finish(); if (!queue.empty()) { queue.push_back(queue.back()); ctx.fault(F_DUP); } break;
            case OL_SWAP: finish(); if (queue.size() > 1) { std::swap(queue[queue.size() - 1], queue[queue.size() - 2]); ctx.fault(F_SWAP); } break;
            case OL_DELIVER: finish(); for (auto &f : queue) receive(f); queue.clear(); break;
            default: break;
        }
    }
    finish();
    for (auto &f : queue) receive(f);
}

Scenario sc() {
    Scenario s;
    s.name = "framed_link";
    s.props = {"L01", "L02"};
    s.cfg_names = {"crc32", "initial_crc", "misalignment"};
    s.op_names = {"frame", "field", "burst-error", "bit-errors", "drop", "duplicate", "swap", "fragment", "deliver"};
    s.fault_names = {"error burst no longer than the CRC", "one to three flipped bits", "frame lost", "frame duplicated", "frames reordered", "frame received in pieces"};
    s.probe_names = {"empty message", "message longer than 256 bytes", "received byte by byte", "damage in the CRC itself", "damaged frame rejected", "signed field", "field through the macros", "unaligned buffer", "64-bit field"};
    s.rule = "a case is one seed: frames built from serialized fields and raw bytes, sent over a link that fragments, damages, drops, duplicates and reorders them; non-trivial when a frame was "
             "damaged or fragmented";
    s.state_measure = "crc width x message length x number of pieces x accepted or rejected";
    s.real_components = {"gel/crc/crc16-ccitt.c, gel/crc/crc32.c, gel/serializer/serializer.h (clang -O1, AddressSanitizer)"};
    s.stub_components = {"byte link between two stations", "reference polynomial division"};
    s.twin = true;
    s.twin_cfg = {C_CRC};
    s.edge_budget = 20000000;
    s.long_ops = 20000;
    s.gen = gen;
    s.run = run;
    return s;
}
Registrar r1(sc());
BudgetReg b({{"L01", 400000, 16000000}, {"L02", 400000, 16000000}});
}   // namespace
