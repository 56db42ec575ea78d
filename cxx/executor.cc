// Executes requests of the driver on the public C++ API of wisardpkg (one JSON line in, one out).
#ifndef WP_HEADER
#error "define WP_HEADER"
#endif
#include WP_HEADER
#include "mini.h"
#include <iostream>
#include <functional>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <typeinfo>
#include <thread>
#include <atomic>
#if defined(__SANITIZE_ADDRESS__)
#define WV_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WV_ASAN 1
#endif
#endif
#ifdef WV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace wp = wisardpkg;
using mini::V;
typedef std::vector<int> Img;

static long long g_clock = 1500000000;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = (time_t)g_clock; return (time_t)g_clock; }

#ifndef NO_PROBE
struct KProbe : public wp::KernelCanvas {
  KProbe(int d, int n, nlohmann::json c) : wp::KernelCanvas(d, n, c) {}
  KProbe(int d, int n) : wp::KernelCanvas(d, n) {}
  const std::vector<std::vector<double>>& k() const { return kernels; }
};
#else
typedef wp::KernelCanvas KProbe;
#endif

// Objects by name. A worker thread of "par" keeps what it creates for itself and sees the objects of the main thread.
static thread_local bool worker = false;
template <class T> struct Store {
  typedef std::map<std::string, std::unique_ptr<T>> M;
  M m;
  M& own() { if (!worker) return m; static thread_local M tl; return tl; }
  T& operator[](const V& h) {
    auto it = own().find(h.str()); if (it != own().end()) return *it->second;
    it = m.find(h.str()); if (it == m.end()) throw std::logic_error("harness: no handle " + h.str()); return *it->second; }
  void put(const V& h, T* p) { own()[h.str()] = std::unique_ptr<T>(p); }
};
static Store<wp::Wisard> wis; static Store<wp::Discriminator> dis; static Store<wp::ClusWisard> clu;
static Store<wp::BinInput> bin; static Store<wp::DataSet> ds; static Store<KProbe> kc;
static Store<wp::Synthesizer> syn; static Store<wp::RAMDataHandle> rdh;

static Img img(const V& v) {
  Img o;
  if (v.t == V::STR) { for (char c : v.s) o.push_back(c - '0'); return o; }
  for (auto& x : v.a) o.push_back((int)x.integer());
  return o;
}
static unsigned long long u64(const V& v) { return v.t == V::STR ? strtoull(v.s.c_str(), 0, 10) : (unsigned long long)v.integer(); }
static std::vector<Img> imgs(const V& v) { std::vector<Img> o; for (auto& x : v.a) o.push_back(img(x)); return o; }
static std::vector<short> shorts(const V& v) { std::vector<short> o; for (int x : img(v)) o.push_back((short)x); return o; }
static std::vector<std::string> strs(const V& v) { std::vector<std::string> o; for (auto& x : v.a) o.push_back(x.str()); return o; }
static nlohmann::json nj(const V& v) {
  switch (v.t) {
    case V::NUL: return nullptr; case V::BOOL: return v.b; case V::INT: return v.i; case V::DBL: return v.d; case V::STR: return v.s;
    case V::ARR: { nlohmann::json j = nlohmann::json::array(); for (auto& x : v.a) j.push_back(nj(x)); return j; }
    default: { nlohmann::json j = nlohmann::json::object(); for (auto& x : v.o) j[x.first] = nj(x.second); return j; }
  }
}
static V sv(const std::vector<std::string>& x) { V v = V::Arr(); for (auto& s : x) v.a.push_back(V::Str(s)); return v; }
static V imv(const std::vector<Img>& x) { V v = V::Arr(); for (auto& s : x) v.a.push_back(V::Ints(s)); return v; }
static V bits(const wp::BinInput& b) { V v = V::Arr(); for (size_t i = 0; i < b.size(); i++) v.a.push_back(V::Int(b.get(i))); return v; }
// ---- arguments kept through the call: compared with a copy afterwards, then spoiled and destroyed
static thread_local bool alias_on = false;
static std::vector<int> rawBits(const wp::BinInput& b) { std::vector<int> o; for (size_t i = 0; i < b.size(); i++) o.push_back(b.get((wp::index_size_t)i)); return o; }
static bool eqv(const wp::BinInput& x, const wp::BinInput& y) { return x.size() == y.size() && rawBits(x) == rawBits(y); }
static std::string labelOf(const wp::DataSet& d, size_t i) { try { return "l" + const_cast<wp::DataSet&>(d).getLabel((wp::index_size_t)i); } catch (const std::exception&) { return ""; } }
static bool eqv(const wp::DataSet& x, const wp::DataSet& y) {
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); i++) if (!eqv(x[i], y[i]) || labelOf(x, i) != labelOf(y, i)) return false;
  return true;
}
static std::string rdhText(wp::RAMDataHandle& r) { return r.data(); }
static bool eqv(wp::RAMDataHandle& x, wp::RAMDataHandle& y) { return rdhText(x) == rdhText(y); }
template <class T> static bool eqv(const T& x, const T& y) { return x == y; }
static void spoil(int& x) { x = x ? 0 : 1; }
static void spoil(short& x) { x = x ? 0 : 1; }
static void spoil(double& x) { x = 1 - x; }
static void spoil(std::string& s) { for (auto& c : s) c = c == 'a' ? 'b' : 'a'; }
static void spoil(nlohmann::json& j) { j = {{"base", 7}, {"ignoreZero", true}, {"verbose", true}, {"confidence", 9}}; }
static void spoil(wp::BinInput& b) { for (size_t i = 0; i < b.size(); i++) b.set((wp::index_size_t)i, 1 - b.get((wp::index_size_t)i)); }
static void spoil(wp::DataSet& d) { d.add(std::vector<short>{1, 0, 1}, "spoiled"); d = wp::DataSet(); d.add(std::vector<short>{1}, "spoiled"); }
static void spoil(wp::RAMDataHandle& r) { try { r.set(0, 1, 77); r.set(0, 0, 77); } catch (const std::exception&) {} }
static void spoil(std::map<int, std::string>& m) { for (auto& p : m) spoil(p.second); }
template <class T> static void spoil(std::vector<T>& v) { for (auto& x : v) spoil(x); }
struct Kept { virtual bool same() = 0; virtual void ruin() = 0; virtual ~Kept() {} };
template <class T> struct KeptT : Kept { T v; std::unique_ptr<T> c; KeptT(T&& x) : v(std::move(x)), c(alias_on ? new T(v) : nullptr) {} bool same() { return !c || eqv(v, *c); } void ruin() { spoil(v); } };
static thread_local std::vector<std::unique_ptr<Kept>> arena;
template <class T> static T& keep(T x) { KeptT<T>* k = new KeptT<T>(std::move(x)); arena.push_back(std::unique_ptr<Kept>(k)); return k->v; }
static bool finish() { // the arguments of the call; false if the call changed one
  bool ok = true;
  if (alias_on) { for (auto& k : arena) ok = k->same() && ok; for (auto& k : arena) k->ruin(); }
  std::vector<std::unique_ptr<Kept>>().swap(arena);
  return ok;
}
#define ARG(T, x) (alias_on ? keep(T(x)) : (x))
template <class T> static V js(T& o, const std::vector<V>& a) { // json(), json(huge), json(huge,path)
  if (a.size() <= 2) return V::Str(o.json());
  if (a.size() == 3) return V::Str(o.json(a[2].b));
  return V::Str(o.json(a[2].b, keep(a[3].str())));
}
static wp::Wisard* mkw(const V& a, const V& o) { return o.null() ? new wp::Wisard((int)a.integer()) : new wp::Wisard((int)a.integer(), keep(nj(o))); }

typedef std::function<V(const std::vector<V>&)> Fn;
static std::map<std::string, Fn> ops;
static V one(const V& req);
static void clear() { wis.own().clear(); dis.own().clear(); clu.own().clear(); bin.own().clear(); ds.own().clear(); kc.own().clear(); syn.own().clear(); rdh.own().clear(); }
static V par(const std::vector<V>& lists) { // every list in a thread of its own, released together
  std::vector<V> out(lists.size(), V::Arr());
  std::vector<std::thread> ts;
  std::atomic<int> ready(0); std::atomic<bool> go(false);
  for (size_t i = 0; i < lists.size(); i++) ts.push_back(std::thread([&, i] {
    worker = true; ready++; while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
    for (auto& q : lists[i].a) out[i].a.push_back(one(q));
    clear(); }));
  while (ready.load() < (int)lists.size()) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : ts) t.join();
  V r = V::Arr(); r.a = out; return r;
}

static void setup() {
#define OP(name) ops[name] = [](const std::vector<V>& a) -> V
  OP("ping") { return V::Int((long long)a.size()); };
  OP("caps") { V v = V::Arr(); v.a.push_back(V::Str("cxx"));
#ifndef NO_PROBE
    v.a.push_back(V::Str("probe"));
#endif
    return v; };
  OP("version") { return V::Str(wp::__version__); };
  OP("clock") { g_clock = a[1].integer(); return V(); };
  OP("crand") { srand((unsigned)a[1].integer()); for (int i = 0; i < (a.size() > 2 ? a[2].integer() : 0); i++) rand(); return V(); };
  OP("mem") {
#ifdef WV_ASAN
    return V::Int((long long)__sanitizer_get_current_allocated_bytes());
#else
    return V();
#endif
  };
  OP("alias") { alias_on = a[1].b; return V(); };
  OP("out") { std::cout.flush(); fflush(stdout); struct stat s; fstat(1, &s); long n = s.st_size; fstat(2, &s); return V::Int(n + s.st_size); };
  OP("fsize") { struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = a[1].null() ? r.rlim_max : (rlim_t)a[1].integer(); setrlimit(RLIMIT_FSIZE, &r); return V(); };
  OP("nofile") { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); static rlim_t was = r.rlim_cur; r.rlim_cur = a[1].null() ? was : (rlim_t)a[1].integer(); setrlimit(RLIMIT_NOFILE, &r); return V(); };
  OP("chdir") { return V::Int(chdir(a[1].str().c_str())); };
  OP("del") { for (size_t k = 1; k < a.size(); k++) { const std::string& h = a[k].str(); wis.own().erase(h); dis.own().erase(h); clu.own().erase(h); bin.own().erase(h); ds.own().erase(h); kc.own().erase(h); syn.own().erase(h); rdh.own().erase(h); } return V(); };
  OP("reset") { (void)a; clear(); return V(); };
  OP("par") { return par(a[1].a); };

  // ---- Wisard
  OP("wis.new") { wis.put(a[1], mkw(a[2], a[3])); return V(); };
  OP("wis.load") { wis.put(a[1], new wp::Wisard(keep(a[2].str()))); return V(); };
  OP("wis.copy") { wis.put(a[1], new wp::Wisard(wis[a[2]])); return V(); };
  OP("wis.assign") { wis[a[1]] = wis[a[2]]; return V(); };
  OP("wis.train") { wis[a[1]].train(keep(imgs(a[2])), keep(strs(a[3]))); return V(); };
  OP("wis.trainDS") { wis[a[1]].train(ARG(wp::DataSet, ds[a[2]])); return V(); };
  OP("wis.classify") { return sv(wis[a[1]].classify(keep(imgs(a[2])))); };
  OP("wis.classifyDS") { return sv(wis[a[1]].classify(ARG(wp::DataSet, ds[a[2]]))); };
  OP("wis.loo") { wis[a[1]].leaveOneOut(keep(img(a[2])), keep(a[3].str())); return V(); };
  OP("wis.lmo") { wis[a[1]].leaveMoreOut(keep(imgs(a[2])), keep(strs(a[3]))); return V(); };
  OP("wis.mental") { V v = V::Obj(); for (auto& p : wis[a[1]].getMentalImages()) v.o.push_back(std::make_pair(p.first, V::Ints(p.second))); return v; };
  OP("wis.json") { return js(wis[a[1]], a); };
  OP("wis.cycle") { wp::Wisard w(wis[a[1]].json(true, a[2].str())); return V::Str(w.json()); };
  OP("wis.jsonConfig") { return V::Str(wis[a[1]].jsonConfig()); };
  OP("wis.sizeof") { return V::Int(wis[a[1]].getsizeof()); };

  // ---- Discriminator
  OP("disc.new") { dis.put(a[1], a[4].null() ? new wp::Discriminator((int)a[2].integer(), (int)a[3].integer()) : new wp::Discriminator((int)a[2].integer(), (int)a[3].integer(), keep(nj(a[4])))); return V(); };
  OP("disc.newPlain") { dis.put(a[1], new wp::Discriminator((int)a[2].integer(), (int)a[3].integer(), (bool)a[4].b, (bool)a[5].b, (int)a[6].integer())); return V(); };
  OP("disc.newIdx") { dis.put(a[1], new wp::Discriminator(keep(img(a[2])), (int)a[3].integer(), (int)a[4].integer(), (bool)a[5].b, (int)a[6].integer())); return V(); };
  OP("disc.newMap") { dis.put(a[1], new wp::Discriminator(keep(imgs(a[2])), (int)a[3].integer(), (bool)a[4].b, (int)a[5].integer())); return V(); };
  OP("disc.load") { dis.put(a[1], new wp::Discriminator(keep(a[2].str()))); return V(); };
  OP("disc.copy") { dis.put(a[1], new wp::Discriminator(dis[a[2]])); return V(); };
  OP("disc.assign") { dis[a[1]] = dis[a[2]]; return V(); };
  OP("disc.train") { dis[a[1]].train(keep(img(a[2]))); return V(); };
  OP("disc.trainN") { Img x = img(a[2]); for (long long k = 0; k < a[3].integer(); k++) dis[a[1]].train(x); return V(); };
  OP("disc.trainB") { dis[a[1]].train(keep(imgs(a[2]))); return V(); };
  OP("disc.trainBin") { dis[a[1]].train(keep(wp::BinInput(shorts(a[2])))); return V(); };
  OP("disc.untrain") { dis[a[1]].untrain(keep(img(a[2]))); return V(); };
  OP("disc.classify") { return V::Ints(dis[a[1]].classify(keep(img(a[2])))); };
  OP("disc.classifyM") { V v = V::Arr(); wp::Discriminator& d = dis[a[1]]; for (auto& x : a[2].a) v.a.push_back(V::Ints(d.classify(keep(img(x))))); return v; };
  OP("disc.classifyBin") { return V::Ints(dis[a[1]].classify(keep(wp::BinInput(shorts(a[2]))))); };
  OP("disc.mental") { return V::Ints(dis[a[1]].getMentalImage()); };
  OP("disc.count") { return V::Int(dis[a[1]].getNumberOfTrainings()); };
  OP("disc.nrams") { return V::Int(dis[a[1]].getNumberOfRAMS()); };
  OP("disc.json") { return js(dis[a[1]], a); };
  OP("disc.cycle") { wp::Discriminator w(dis[a[1]].json(true, a[2].str())); return V::Str(w.json()); };
  OP("disc.jsonConfig") { return V::Str(dis[a[1]].jsonConfig()); };
  OP("disc.sizeof") { return V::Int(dis[a[1]].getsizeof()); };

  // ---- ClusWisard
  OP("clu.new") { int as = (int)a[2].integer(), th = (int)a[4].integer(), li = (int)a[5].integer(); float ms = (float)a[3].number();
    clu.put(a[1], a[6].null() ? new wp::ClusWisard(as, ms, th, li) : new wp::ClusWisard(as, ms, th, li, keep(nj(a[6])))); return V(); };
  OP("clu.load") { clu.put(a[1], new wp::ClusWisard(keep(a[2].str()))); return V(); };
  OP("clu.copy") { clu.put(a[1], new wp::ClusWisard(clu[a[2]])); return V(); };
  OP("clu.assign") { clu[a[1]] = clu[a[2]]; return V(); };
  OP("clu.train") { clu[a[1]].train(keep(imgs(a[2])), keep(strs(a[3]))); return V(); };
  OP("clu.trainSemi") { std::map<int, std::string> m; for (auto& p : a[3].a) m[(int)p.a[0].integer()] = p.a[1].str(); clu[a[1]].train(keep(imgs(a[2])), keep(m)); return V(); };
  OP("clu.trainU") { clu[a[1]].trainUnsupervised(keep(imgs(a[2]))); return V(); };
  OP("clu.classify") { return sv(clu[a[1]].classify(keep(imgs(a[2])))); };
  OP("clu.classifyU") { return sv(clu[a[1]].classifyUnsupervised(keep(imgs(a[2])))); };
  OP("clu.mental") { return imv(clu[a[1]].getMentalImage(keep(a[2].str()))); };
  OP("clu.mentals") { V v = V::Obj(); for (auto& p : clu[a[1]].getMentalImages()) v.o.push_back(std::make_pair(p.first, imv(p.second))); return v; };
  OP("clu.json") { return js(clu[a[1]], a); };
  OP("clu.cycle") { wp::ClusWisard w(clu[a[1]].json(true, a[2].str())); return V::Str(w.json()); };
  OP("clu.jsonConfig") { return V::Str(clu[a[1]].jsonConfig()); };
  OP("clu.sizeof") { return V::Int(clu[a[1]].getsizeof()); };

  // ---- BinInput
  OP("bin.new") { bin.put(a[1], new wp::BinInput((wp::index_size_t)a[2].integer())); return V(); };
  OP("bin.vec") { bin.put(a[1], new wp::BinInput(keep(shorts(a[2])))); return V(); };
  OP("bin.load") { bin.put(a[1], new wp::BinInput(keep(a[2].str()))); return V(); };
  OP("bin.copy") { bin.put(a[1], new wp::BinInput(bin[a[2]])); return V(); };
  OP("bin.assign") { bin[a[1]] = bin[a[2]]; return V(); };
  OP("bin.get") { return V::Int(bin[a[1]].get((wp::index_size_t)a[2].integer())); };
  OP("bin.idx") { return V::Int(bin[a[1]][(wp::index_size_t)a[2].integer()]); };
  OP("bin.set") { bin[a[1]].set((wp::index_size_t)a[2].integer(), (int)a[3].integer()); return V(); };
  OP("bin.size") { return V::Int((long long)bin[a[1]].size()); };
  OP("bin.data") { return V::Str(bin[a[1]].data()); };
  OP("bin.all") { return bits(bin[a[1]]); };

  // ---- DataSet
  OP("ds.new") { ds.put(a[1], new wp::DataSet()); return V(); };
  OP("ds.load") { ds.put(a[1], new wp::DataSet(keep(a[2].str()))); return V(); };
  OP("ds.copy") { ds.put(a[1], new wp::DataSet(ds[a[2]])); return V(); };
  OP("ds.assign") { ds[a[1]] = ds[a[2]]; return V(); };
  OP("ds.add") { if (a[3].null()) ds[a[1]].add(keep(shorts(a[2]))); else ds[a[1]].add(keep(shorts(a[2])), keep(a[3].str())); return V(); };
  OP("ds.addBin") { if (a[3].null()) ds[a[1]].add(ARG(wp::BinInput, bin[a[2]])); else ds[a[1]].add(ARG(wp::BinInput, bin[a[2]]), keep(a[3].str())); return V(); };
  OP("ds.addM") { for (size_t k = 0; k < a[2].a.size(); k++) { if (a[3].a[k].null()) ds[a[1]].add(keep(shorts(a[2].a[k]))); else ds[a[1]].add(keep(shorts(a[2].a[k])), keep(a[3].a[k].str())); } return V(); };
  OP("ds.get") { return bits(ds[a[1]].get((int)a[2].integer())); };
  OP("ds.idx") { return bits(ds[a[1]][(int)a[2].integer()]); };
  OP("ds.label") { return V::Str(ds[a[1]].getLabel((wp::index_size_t)a[2].integer())); };
  OP("ds.size") { return V::Int((long long)ds[a[1]].size()); };
  OP("ds.save") { ds[a[1]].save(keep(a[2].str())); return V(); };

  // ---- KernelCanvas
  OP("kc.new") { int d = (int)a[2].integer(), n = (int)a[3].integer(); kc.put(a[1], a[4].null() ? new KProbe(d, n) : new KProbe(d, n, keep(nj(a[4])))); return V(); };
  OP("kc.copy") { kc.put(a[1], new KProbe(kc[a[2]])); return V(); };
  OP("kc.transform") { std::vector<std::vector<double>> s; for (auto& r : a[2].a) { std::vector<double> p; for (auto& x : r.a) p.push_back(x.number()); s.push_back(p); }
    return V::Ints(kc[a[1]].transform(keep(s))); };
#ifndef NO_PROBE
  OP("kc.kernels") { V v = V::Arr(); for (auto& k : kc[a[1]].k()) { V r = V::Arr(); for (double x : k) r.a.push_back(V::Dbl(x)); v.a.push_back(r); } return v; };
#endif

  // ---- Synthesizer
  OP("syn.new") { syn.put(a[1], new wp::Synthesizer(keep(img(a[2])))); return V(); };
  OP("syn.make") { V v = V::Arr(); for (long long k = 0; k < a[2].integer(); k++) v.a.push_back(V::Ints(syn[a[1]].make())); return v; };

  // ---- RAMDataHandle
  OP("rdh.new") { rdh.put(a[1], new wp::RAMDataHandle(keep(a[2].str()))); return V(); };
  OP("rdh.copy") { rdh.put(a[1], new wp::RAMDataHandle(rdh[a[2]])); return V(); };
  OP("rdh.assign") { rdh[a[1]] = rdh[a[2]]; return V(); };
  OP("rdh.get2") { return V::Int(rdh[a[1]].get((int)a[2].integer(), u64(a[3]))); };
  OP("rdh.get1") { V v = V::Arr(); for (auto& p : rdh[a[1]].get((int)a[2].integer())) { V r = V::Arr(); r.a.push_back(V::Str(std::to_string((unsigned long long)p.first))); r.a.push_back(V::Int(p.second)); v.a.push_back(r); } return v; };
  OP("rdh.set") { rdh[a[1]].set((int)a[2].integer(), u64(a[3]), (int)a[4].integer()); return V(); };
  OP("rdh.data") { return V::Str(rdh[a[1]].data()); };
  OP("rdh.data1") { return V::Str(rdh[a[1]].data((int)a[2].integer())); };
  OP("rdh.compare") { return V::Bool(rdh[a[1]].compare(ARG(wp::RAMDataHandle, rdh[a[2]]))); };
  OP("rdh.save") { rdh[a[1]].save(keep(a[2].str())); return V(); };

#ifndef NO_PROBE
  OP("disc.newEmpty") { dis.put(a[1], a[2].null() ? new wp::Discriminator() : new wp::Discriminator((int)a[2].integer())); return V(); };
  OP("disc.entry") { return V::Int(dis[a[1]].getEntrySize()); };
  OP("bin.newEmpty") { bin.put(a[1], new wp::BinInput()); return V(); };
  OP("rdh.newRam") { wp::ram_t m; for (auto& p : a[2].a) m[u64(p.a[0])] = (int)p.a[1].integer(); rdh.put(a[1], new wp::RAMDataHandle(m)); return V(); };
#endif

  // ---- Base64
  OP("b64.enc") { return V::Str(wp::Base64::encode(mini::unhex(a[1].str()))); };
  OP("b64.dec") { return V::Str(mini::hexs(wp::Base64::decode(a[1].str()))); };
}

static V one(const V& req) {
  V r = V::Arr();
  try {
    auto it = ops.find(req.a.at(0).str());
    if (it == ops.end()) { r.a.push_back(V::Str("noop")); return r; }
    V x = it->second(req.a);
    r.a.push_back(V::Str("ok")); r.a.push_back(x);
  }
  catch (const wp::Exception& e) { r.a.clear(); r.a.push_back(V::Str("ex")); r.a.push_back(V::Str("Exception")); r.a.push_back(V::Str(e.what())); }
  catch (const std::logic_error& e) { r.a.clear(); bool h = strncmp(e.what(), "harness:", 8) == 0; r.a.push_back(V::Str(h ? "harness" : "ex")); r.a.push_back(V::Str(typeid(e).name())); r.a.push_back(V::Str(e.what())); }
  catch (const std::exception& e) { r.a.clear(); r.a.push_back(V::Str("ex")); r.a.push_back(V::Str(typeid(e).name())); r.a.push_back(V::Str(e.what())); }
  catch (...) { r.a.clear(); r.a.push_back(V::Str("ex")); r.a.push_back(V::Str("other")); r.a.push_back(V::Str("not a std::exception")); }
  std::string op = req.a.at(0).s;
  if (!finish() ) { r.a.clear(); r.a.push_back(V::Str("arg")); r.a.push_back(V::Str(op)); }
  return r;
}

int main(int, char**) {
  signal(SIGXFSZ, SIG_IGN);
  int fd = getenv("WV_FD") ? atoi(getenv("WV_FD")) : 1;
  setup();
  std::string line, out;
  while (std::getline(std::cin, line)) {
    V req = mini::Parser(line).parse();
    out.clear();
    V rep = V::Arr();
    for (auto& q : req.a) rep.a.push_back(one(q));
    mini::write(out, rep);
    out += '\n';
    size_t k = 0;
    while (k < out.size()) { ssize_t n = write(fd, out.data() + k, out.size() - k); if (n <= 0) return 3; k += (size_t)n; }
  }
  clear();
  return 0;
}
