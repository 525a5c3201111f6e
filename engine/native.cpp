// Native run time for the contract files: the same contracts, executed against the real code with
// generated inputs (bounded stand-in / counterexample search) or with the inputs of a verifier model.
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <fstream>
#include <typeinfo>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

namespace {
struct Skip {};
struct In { char kind; std::string name; double d; long long i; std::string s; };
std::vector<In> tape, replay;
std::size_t rpos; bool replaying;
unsigned long long rs;
long checks;
struct Progress { char contract[200]; long sample; } *prog;
std::vector<std::string> fails;
unsigned long long rnd(){ rs += 0x9E3779B97F4A7C15ULL; unsigned long long z = rs; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
// constants of the code under test that the reference tree does not have (a search heuristic: where to look first)
std::vector<long long> dict_i; std::vector<double> dict_r; std::vector<std::string> dict_s;
bool pick_int(long long lo, long long hi, long long& v){
  if(dict_i.empty() || rnd() % 3) return false;
  static const long long m[] = {1, 1, 1, 2, 4, 8, 16, 80};
  long long c = dict_i[rnd() % dict_i.size()], f = m[rnd() % 8], d = (long long)(rnd() % 5) - 2;
  if(c > (1LL << 40) || c < -(1LL << 40)) f = 1;
  if(rnd() % 4 == 0) d = rnd() % 2 ? (long long)(rnd() % 64) : (long long)(rnd() % 4000);
  __int128 x = (__int128)c * f + d;
  if(x < lo || x > hi) return false;
  v = (long long)x; return true;
}
double u01(){ return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
const In* next(char k){
  if(replaying && rpos < replay.size() && replay[rpos].kind == k) return &replay[rpos++];
  if(replaying) { rpos = replay.size(); }
  return nullptr;
}
}
extern "C" {
double vp_real(const char* n, double lo, double hi){
  double v;
  if(const In* t = next('r')) v = t->d;
  else if(!dict_r.empty() && rnd() % 3 == 0){ v = dict_r[rnd() % dict_r.size()]; if(rnd() % 2) v += (u01() - 0.5) * (rnd() % 2 ? 1e-3 : 1.0); }
  else if(long long x; !dict_i.empty() && pick_int(-(1LL << 40), 1LL << 40, x)) v = (double)x + (rnd() % 2 ? u01() : 0);
  else {
    switch(rnd() % 10){
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: v = (double)(long long)(lo + (hi - lo) * u01()); break;
      case 3: { double k = M_PI / 4; v = k * std::floor((lo + (hi - lo) * u01()) / k); break; }
      default: v = lo + (hi - lo) * u01();
    }
  }
  if(!(v >= lo)) v = lo;
  if(!(v <= hi)) v = hi;
  tape.push_back(In{'r', n, v, 0, ""}); return v;
}
double vp_anyreal(const char* n){
  double v;
  if(const In* t = next('r')) v = t->d;
  else if(!dict_r.empty() && rnd() % 3 == 0){ v = dict_r[rnd() % dict_r.size()]; if(rnd() % 2) v += (u01() - 0.5) * (rnd() % 2 ? 1e-3 : 1.0); }
  else if(long long x; !dict_i.empty() && pick_int(-(1LL << 40), 1LL << 40, x)) v = (double)x + (rnd() % 2 ? u01() : 0);
  else switch(rnd() % 8){
    case 0: v = 0; break;
    case 1: v = (double)((long long)(rnd() % 201) - 100); break;
    case 2: v = (u01() - 0.5) * 2e4; break;
    default: v = (u01() - 0.5) * 20;
  }
  tape.push_back(In{'r', n, v, 0, ""}); return v;
}
long long vp_int(const char* n, long long lo, long long hi){
  long long v;
  if(const In* t = next('i')) v = t->i;
  else if(pick_int(lo, hi, v)){}
  else {
    unsigned long long span = (unsigned long long)hi - (unsigned long long)lo + 1;
    switch(rnd() % 8){
      case 0: v = lo; break;
      case 1: v = hi; break;
      case 2: case 3: v = lo + (long long)(span ? rnd() % (span < 12 ? span : 12) : rnd() % 12); break;
      default: v = span ? (long long)((unsigned long long)lo + rnd() % span) : (long long)rnd();
    }
  }
  if(v < lo) v = lo;
  if(v > hi) v = hi;
  tape.push_back(In{'i', n, 0, v, ""}); return v;
}
unsigned long long vp_bits(const char* n, int w){
  unsigned long long v, m = w >= 64 ? ~0ULL : ((1ULL << w) - 1);
  if(const In* t = next('b')) v = (unsigned long long)t->i;
  else if(long long x; pick_int(-(1LL << 62), 1LL << 62, x)) v = (unsigned long long)x;
  else switch(rnd() % 8){
    case 0: v = 0; break;
    case 1: v = m; break;
    case 2: v = 1ULL << (rnd() % (unsigned)w); break;
    case 3: v = 0xFFULL << (8 * (rnd() % (unsigned)((w + 7) / 8))); break;
    case 4: v = rnd() & rnd() & rnd(); break;
    default: v = rnd();
  }
  v &= m;
  tape.push_back(In{'b', n, 0, (long long)v, ""}); return v;
}
void vp_str(std::string* out, const char* n, std::size_t lo, std::size_t hi){
  std::string v;
  if(const In* t = next('s')) v = t->s;
  else {
    std::size_t span = hi - lo + 1, len;
    long long dl;
    if(!dict_i.empty() && rnd() % 2 && pick_int((long long)lo, (long long)(hi < (1u << 21) ? hi : (1u << 21)), dl)) len = (std::size_t)dl;
    else if(span > 1000000 && rnd() % 30 == 0) len = lo + rnd() % (span < 2000000 ? span : 2000000);
    else switch(rnd() % 6){
      case 0: len = lo; break;
      case 1: len = span > 4000 ? lo + rnd() % 4000 : hi; break;
      case 2: case 3: len = lo + rnd() % (span < 24 ? span : 24); break;
      default: len = lo + rnd() % (span > 4000 ? 4000 : span);
    }
    int style = (int)(rnd() % 6);
    static const char sp[] = " '/=()TF0123456789.+-eEA";
    for(std::size_t i = 0; i < len; i++){
      unsigned char c;
      switch(style){
        case 0: c = (unsigned char)(32 + rnd() % 95); break;
        case 1: c = sp[rnd() % (sizeof sp - 1)]; break;
        case 2: c = (unsigned char)('A' + rnd() % 26); break;
        case 3: c = (unsigned char)('0' + rnd() % 10); break;
        case 4: c = (unsigned char)rnd(); break;
        default: c = rnd() % 3 ? (unsigned char)(32 + rnd() % 95) : ' ';
      }
      v.push_back((char)c);
    }
    if(!dict_s.empty() && rnd() % 2){
      const std::string& d = dict_s[rnd() % dict_s.size()];
      if(d.size() <= v.size()){ std::size_t at = rnd() % 2 ? 0 : rnd() % (v.size() - d.size() + 1); v.replace(at, d.size(), d); }
      else if(d.size() >= lo && d.size() <= hi) v = d;
    }
    if(!dict_i.empty() && !v.empty() && rnd() % 4 == 0){ long long c; if(pick_int(1, 255, c)) v[rnd() % v.size()] = (char)c; }
  }
  if(v.size() < lo) v.resize(lo, ' ');
  if(v.size() > hi) v.resize(hi);
  tape.push_back(In{'s', n, 0, 0, v}); *out = v;
}
void vp_assume(bool c){ if(!c) throw Skip(); }
void vp_ensure(bool c, const char* n){ checks++; if(!c) fails.push_back(n); }
void vp_same(double a, double b, const char* n){
  checks++;
  if(a == b || (a != a && b != b)) return;
  double d = std::fabs(a - b);
  if(!(d <= 1e-6 + 1e-9 * (std::fabs(a) + std::fabs(b)))){
    char buf[160]; std::snprintf(buf, sizeof buf, "%s (%.17g vs %.17g)", n, a, b); fails.push_back(buf);
  }
}
void vp_reach(const char*){}
long long vp_fork(long long x, long long, long long){ return x; }
void vp_unroll(int){}
void vp_bounded(const char*){}
long vp_mark(){ return checks; }
}
std::map<std::string, void(*)()>& vp_registry(){ static std::map<std::string, void(*)()> m; return m; }

static void print_tape(FILE* o){
  for(auto& t : tape){
    if(t.kind == 'r') std::fprintf(o, "r %s %.17g\n", t.name.c_str(), t.d);
    else if(t.kind == 's'){ std::fprintf(o, "s %s ", t.name.c_str()); for(unsigned char c : t.s) std::fprintf(o, "%02x", c); std::fprintf(o, ".\n"); }
    else std::fprintf(o, "%c %s %lld\n", t.kind, t.name.c_str(), t.i);
  }
}
// returns 0 ok, 1 failed, 2 skipped
static int run_one(const std::string& name, void(*f)()){
  tape.clear(); fails.clear(); rpos = 0;
  std::strncpy(prog->contract, name.c_str(), sizeof prog->contract - 1);
  try { f(); }
  catch(Skip&){ if(fails.empty()) return 2; }
  catch(std::exception& e){ fails.push_back(std::string("uncaught exception: ") + typeid(e).name() + ": " + e.what()); }
  catch(...){ fails.push_back("uncaught exception"); }
  if(fails.empty()) return 0;
  std::printf("FAIL %s\n", name.c_str());
  for(auto& x : fails) std::printf("OBLIGATION %s\n", x.c_str());
  std::printf("TAPE\n"); print_tape(stdout); std::printf("END\n"); std::fflush(stdout);
  return 1;
}
int main(int argc, char** argv){
  // sample <progress> <seed> <n> [contract] | one <progress> <seed> <k> <contract> | tape <progress> <contract> <file>
  if(argc < 4) return 3;
  int fd = open(argv[2], O_RDWR | O_CREAT, 0600);
  if(ftruncate(fd, sizeof(Progress))) return 3;
  prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  std::string mode = argv[1];
  if(const char* d = std::getenv("VP_DICT")){
    std::ifstream in(d); std::string line;
    while(std::getline(in, line)){
      if(line.size() < 3) continue;
      if(line[0] == 'i') dict_i.push_back(std::strtoll(line.c_str() + 2, nullptr, 10));
      else if(line[0] == 'r') dict_r.push_back(std::strtod(line.c_str() + 2, nullptr));
      else { std::string t; for(std::size_t i = 2; i + 1 < line.size(); i += 2) t.push_back((char)std::stoi(line.substr(i, 2), nullptr, 16)); dict_s.push_back(t); }
    }
  }
  auto& R = vp_registry();
  if(mode == "tape"){
    replaying = true;
    std::ifstream in(argv[4]); std::string line;
    while(std::getline(in, line)){
      if(line.size() < 3) continue;
      std::size_t p = line.find(' ', 2); std::string nm = line.substr(2, p - 2), v = line.substr(p + 1);
      In t{line[0], nm, 0, 0, ""};
      if(t.kind == 'r') t.d = std::strtod(v.c_str(), nullptr);
      else if(t.kind == 's'){ for(std::size_t i = 0; i + 1 < v.size() && v[i] != '.'; i += 2) t.s.push_back((char)std::stoi(v.substr(i, 2), nullptr, 16)); }
      else t.i = t.kind == 'b' ? (long long)std::strtoull(v.c_str(), nullptr, 10) : std::strtoll(v.c_str(), nullptr, 10);
      replay.push_back(t);
    }
    rs = 1;
    if(!R.count(argv[3])) return 3;
    int r = run_one(argv[3], R[argv[3]]);
    std::printf("RESULT %d\n", r);
    return r == 1 ? 1 : 0;
  }
  unsigned long long seed = std::strtoull(argv[3], nullptr, 10);
  long n = std::atol(argv[4]);
  int bad = 0;
  for(auto& kv : R){
    if(argc > 5 && kv.first != argv[5]) continue;
    long ok = 0, skip = 0; checks = 0;
    unsigned long long h = 1469598103934665603ULL;
    for(char c : kv.first) h = (h ^ (unsigned char)c) * 1099511628211ULL;
    int nf = 0;
    for(long k = mode == "one" ? n : 0; k < (mode == "one" ? n + 1 : n); k++){
      rs = h ^ (seed * 0x9E3779B97F4A7C15ULL) ^ ((unsigned long long)k * 0xD1B54A32D192ED03ULL);
      prog->sample = k;
      int r = run_one(kv.first, kv.second);
      if(r == 0) ok++; else if(r == 2) skip++; else { bad = 1; if(++nf >= 1) break; }
    }
    std::printf("DONE %s ran %ld skipped %ld checks %ld\n", kv.first.c_str(), ok, skip, checks); std::fflush(stdout);
  }
  return bad;
}
