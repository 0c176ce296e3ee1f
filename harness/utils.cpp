// The stand-alone register helpers (simd_utils.hpp) as instructions of the register machine of spec/VecTrace.tla.
// usage: utils SEED SESSIONS CFG [samples=N]
#define NV_MAIN
#include "nv.hpp"
#include "oracle.hpp"
#include "simd_utils.hpp"
#include <map>
using namespace nv;
enum { NR = 6, L = 4 };
namespace u = nova::detail;

struct alignas(16) Reg { float f[L]; };
static __m128 ld(Reg const & r) { return _mm_load_ps(r.f); }
static Reg st(__m128 v) { Reg r; _mm_store_ps(r.f, v); return r; }

int main(int argc, char ** argv) {
    if (argc < 4) return 2;
    unsigned samples = 60, sessions = atoi(argv[2]), odd_sessions = 0, instr = 0;
    for (int i = 4; i != argc; ++i) if (!strncmp(argv[i], "samples=", 8)) samples = atoi(argv[i] + 8); else return 2;
    install_fault_handlers();
    Rng r(strtoull(argv[1], 0, 10));
    std::map<std::string, int> shown;
    for (unsigned s = 0; s != sessions; ++s) {
        Reg R[NR]; std::string head = "\"regs\":[", ev, oddop; bool odd = false;
        for (int i = 0; i != NR; ++i) { int cls = r.below(NCLASS); for (int k = 0; k != L; ++k) R[i].f[k] = value<float>(r, cls); head += (i ? "," : "") + words(R[i].f, L); }
        head += "],\"mem\":" + words(R[0].f, L);
        for (int i = 0; i != 24 && !odd; ++i) {
            int d = r.below(NR), a = r.below(NR), b = r.below(NR), c = r.below(NR);
            std::string e; const char * op = ""; bool bad = false; Reg before[NR]; memcpy(before, R, sizeof R); ++instr; float ret = 0; int q = 0;
            const unsigned what = r.below(11); int kind = 0, m = 0, sig = 0;       // kind: 0 constant, 1 lane, 2 reduction, 3 selection
            Reg out = R[d];
            const uint32_t all = ~0u;
            auto bitsof = [](float f) { return tobits(f); };
            if (what == 10) {        // a new mask or value in a register, through memory
                for (int k = 0; k != L; ++k) R[d].f[k] = r.chance(60) ? frombits<float>(r.chance(50) ? all : 0) : value<float>(r, SPECIAL);
                ev += std::string(ev.empty() ? "" : ",") + "{\"e\":\"poke\",\"d\":" + words(R[d].f, L) + "},{\"e\":\"io\",\"op\":\"load\",\"stray\":0,\"sig\":0,\"d\":" + std::to_string(d) + ",\"m\":0,\"out\":" + words(R[d].f, L) + "}";
                continue;
            }
            sig = guarded([&] {
                switch (what) {
                case 0: op = "gen_sign_mask"; out = st(u::gen_sign_mask()); break;
                case 1: op = "gen_abs_mask"; out = st(u::gen_abs_mask()); break;
                case 2: op = "gen_one"; out = st(u::gen_one()); break;
                case 3: op = "gen_05"; out = st(u::gen_05()); break;
                case 4: op = "gen_025"; out = st(u::gen_025()); break;
                case 5: op = "get"; kind = 1; m = 0; ret = u::extract_0(ld(R[d])); break;
                case 6: op = "get"; kind = 1; m = 3; ret = u::extract_3(ld(R[d])); break;
                case 7: op = "min"; kind = 2; break;
                case 8: op = "max"; kind = 2; break;
                default: op = "select"; kind = 3; break;
                }
            });
            if (kind == 2) {
                bool nan = false; for (int k = 0; k != L; ++k) nan |= R[d].f[k] != R[d].f[k];
                if (nan) continue;
                sig = guarded([&] { ret = what == 7 ? u::horizontal_min(ld(R[d])) : u::horizontal_max(ld(R[d])); });
            }
            if (kind == 3) {
                bool full = true; for (int k = 0; k != L; ++k) full &= bitsof(R[c].f[k]) == 0 || bitsof(R[c].f[k]) == all;
                if (!full) continue;
                sig = guarded([&] { out = st(u::select_vector(ld(R[a]), ld(R[b]), ld(R[c]))); });
            }
            const std::string tail = std::string("\"op\":\"") + op + "\",\"stray\":0,\"sig\":" + std::to_string(sig) + ",\"d\":" + std::to_string(d);
            if (kind == 0) {
                R[d] = out; for (int k = 0; k != L; ++k) bad |= bitsof(out.f[k]) != (what == 0 ? 0x80000000u : what == 1 ? 0x7fffffffu : what == 2 ? 0x3f800000u : what == 3 ? 0x3f000000u : 0x3e800000u);
                e = "{\"e\":\"io\"," + tail + ",\"m\":0,\"out\":" + words(out.f, L) + "}";
            } else if (kind == 1) {
                bad = bitsof(ret) != bitsof(R[d].f[m]);
                e = "{\"e\":\"io\"," + tail + ",\"m\":" + std::to_string(m) + ",\"ret\":" + word1(ret) + "}";
            } else if (kind == 2) {
                float mn = R[d].f[0], mx = mn; for (int k = 1; k != L; ++k) { mn = R[d].f[k] < mn ? R[d].f[k] : mn; mx = R[d].f[k] > mx ? R[d].f[k] : mx; }
                bad = ret != (what == 7 ? mn : mx);
                e = "{\"e\":\"hor\"," + tail + ",\"ret\":" + word1(ret) + "}";
            } else {
                for (int k = 0; k != L; ++k) bad |= bitsof(out.f[k]) != (bitsof(R[c].f[k]) ? bitsof(R[b].f[k]) : bitsof(R[a].f[k]));
                R[d] = out;
                e = "{\"e\":\"lane\"," + tail + ",\"q\":0,\"a\":[{\"r\":" + std::to_string(a) + "},{\"r\":" + std::to_string(b) + "},{\"r\":" + std::to_string(c) + "}],\"out\":" + words(out.f, L) + "}";
            }
            (void)q; (void)before;
            if (sig) bad = true;
            if (bad) { odd = true; oddop = op; }
            ev += (ev.empty() ? "" : ",") + e;
        }
        odd_sessions += odd;
        if (!ev.empty() && ((odd && shown[oddop]++ < 3) || s % (sessions / samples ? sessions / samples : 1) == 0))
            printf("{\"ty\":\"f\",\"cfg\":\"%s\",%s,\"ev\":[%s]}\n", argv[3], head.c_str(), ev.c_str());
    }
    fprintf(stderr, "{\"instructions\":%u,\"sessions\":%u,\"odd_sessions\":%u}\n", instr, sessions, odd_sessions);
}
