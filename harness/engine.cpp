// Runner of the choice-sequence engine: workers, crash/hang attribution, shrinking,
// replay, evidence.
#include "engine.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace eng {

std::vector<Prop> & props()
{
  static std::vector<Prop> p;
  return p;
}

namespace {

constexpr int kHangSeconds = 60;  // CPU seconds; cases take milliseconds

enum Status : int { kPass = 0, kDiscard, kFail, kCrash, kHang };

struct Shared
{
  std::atomic<int> status;
  std::atomic<uint64_t> case_idx;
  char tag[256];
  char msg[16384];
  char notes[Src::kNoteCap];
};

struct Ctl
{
  std::atomic<uint64_t> next;
  std::atomic<bool> stop;
};

template<typename T>
T * shared_alloc(std::size_t bytes = sizeof(T))
{
  void * p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::exit(2);
  }
  return static_cast<T *>(p);
}

Shared * g_shared = nullptr;

void on_prof(int)
{
  g_shared->status = kHang;
  _exit(4);
}

void arm(int seconds)
{
  itimerval tv{};
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

void put(char * dst, std::size_t cap, const std::string & s)
{
  const auto n = std::min(cap - 1, s.size());
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Outcome
{
  Status status = kPass;
  std::string tag, msg, notes;
  std::vector<uint64_t> choices;
};

std::string slurp(const std::string & f, std::size_t cap = 6000)
{
  std::ifstream in(f);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  if (s.size() > cap) s.resize(cap);
  return s;
}

std::string tmpdir;

/// Fill the stack below the caller with a pattern, so that reads of uninitialized locals do not depend on what ran before.
__attribute__((noinline)) void dirty_stack()
{
  volatile unsigned char buf[128 * 1024];
  std::memset(const_cast<unsigned char *>(buf), 0xFE, sizeof(buf));
  asm volatile("" : : "r"(buf) : "memory");
}

/// Run one property on one source in this process.
Status run_here(const Prop & p, Src & s, std::string & tag, std::string & msg)
{
  dirty_stack();
  try {
    p.fn(s);
    return kPass;
  } catch (const Discard & d) {
    tag = d.why;
    return kDiscard;
  } catch (const Fail & f) {
    tag = f.tag, msg = f.msg;
    return kFail;
  } catch (const std::exception & e) {
    tag = "exception", msg = e.what();
    return kFail;
  }
}

/// Run one forced case in a child process.
Outcome run_forced(std::size_t prop, const std::vector<uint64_t> & choices, int hang = kHangSeconds)
{
  static Shared * sh     = shared_alloc<Shared>();
  static uint64_t * chm  = shared_alloc<uint64_t>((Src::kCap + 2) * sizeof(uint64_t));
  const std::string errf = tmpdir + "/forced.err";
  sh->status             = kCrash;
  sh->tag[0] = sh->msg[0] = sh->notes[0] = 0;
  chm[0]                                 = 0;
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    g_shared = sh;
    int fd   = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    signal(SIGPROF, on_prof);
    arm(hang);
    Src::shm      = chm;
    Src::note_shm = sh->notes;
    Src s(choices);
    s.want_notes = true;
    std::string tag, msg;
    const auto st = run_here(props()[prop], s, tag, msg);
    put(sh->tag, sizeof sh->tag, tag);
    put(sh->msg, sizeof sh->msg, msg);
    put(sh->notes, sizeof sh->notes, s.notes);
    sh->status = st;
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.status = static_cast<Status>(sh->status.load());
  o.tag    = sh->tag;
  o.msg    = sh->msg;
  o.notes  = sh->notes;
  o.choices.assign(chm + 1, chm + 1 + chm[0]);
  if (o.status == kCrash) {
    o.tag = "crash";
    o.msg = slurp(errf);
  }
  if (o.status == kHang) {
    o.tag = "hang";
    o.msg = cat("no result after ", hang, " s of CPU time");
  }
  return o;
}

bool bad(const Outcome & o) { return o.status >= kFail; }

Outcome shrink(std::size_t prop, Outcome best, double budget_s)
{
  const auto t0 = std::chrono::steady_clock::now();
  const auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  const bool hang = best.status == kHang;
  int evals       = 0;

  const auto attempt = [&](const std::vector<uint64_t> & c) {
    if (c == best.choices) return false;
    if (spent() > budget_s || ++evals > (hang ? 8 : 6000)) return false;
    auto o = run_forced(prop, c, hang ? kHangSeconds : kHangSeconds);
    if (!bad(o) || o.tag != best.tag) return false;
    // accept only if simpler
    if (o.choices.size() > best.choices.size()
        || (o.choices.size() == best.choices.size() && !(o.choices < best.choices)))
      return false;
    best = o;
    return true;
  };

  bool progress = true;
  while (progress && spent() < budget_s) {
    progress = false;
    // delete chunks
    for (std::size_t len : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      for (std::size_t i = best.choices.size(); i-- > 0;) {
        if (i + len > best.choices.size()) continue;
        auto c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true;
        if (spent() > budget_s) break;
      }
    }
    // zero chunks
    for (std::size_t len : {16u, 4u, 1u}) {
      for (std::size_t i = 0; i + len <= best.choices.size(); ++i) {
        auto c   = best.choices;
        bool any = false;
        for (std::size_t k = 0; k < len; ++k) any |= c[i + k] != 0, c[i + k] = 0;
        if (any && attempt(c)) progress = true;
      }
    }
    // lower values
    for (std::size_t i = 0; i < best.choices.size(); ++i) {
      uint64_t lo = 0;
      while (i < best.choices.size() && lo < best.choices[i]) {
        const uint64_t mid = lo + (best.choices[i] - lo) / 2;
        auto c             = best.choices;
        c[i]               = mid;
        if (attempt(c)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
        if (spent() > budget_s) break;
      }
    }
  }
  return best;
}

std::string json_str(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\', o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

struct Stats
{
  uint64_t evals = 0, discards = 0;
  std::map<std::string, uint64_t> classes, per_prop, discard_why, known;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

void dump_stats(const Stats & st, const std::string & f)
{
  std::ofstream o(f);
  o << "E " << st.evals << "\n" << "D " << st.discards << "\n";
  for (auto & [k, v] : st.classes) o << "C " << v << " " << k << "\n";
  for (auto & [k, v] : st.per_prop) o << "P " << v << " " << k << "\n";
  for (auto & [k, v] : st.discard_why) o << "W " << v << " " << k << "\n";
  for (auto & [k, v] : st.known) o << "K " << v << " " << k << "\n";
  for (auto h : st.distinct) o << "H " << h << "\n";
  for (auto & s : st.samples) o << "S " << s << "\n";
}

void merge_stats(Stats & st, const std::string & f)
{
  std::ifstream in(f);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    char k;
    ss >> k;
    if (k == 'S') {
      st.samples.push_back(line.substr(2));
      continue;
    }
    uint64_t v;
    ss >> v;
    std::string name;
    std::getline(ss, name);
    if (!name.empty()) name.erase(0, 1);
    if (k == 'E') st.evals += v;
    if (k == 'D') st.discards += v;
    if (k == 'C') st.classes[name] += v;
    if (k == 'P') st.per_prop[name] += v;
    if (k == 'W') st.discard_why[name] += v;
    if (k == 'K') st.known[name] += v;
    if (k == 'H') st.distinct.insert(v);
  }
}

void write_evidence(
  const std::string & file,
  const std::string & tier,
  uint64_t seed,
  const Stats & st,
  double wall,
  int violations,
  const std::string & violation_msg)
{
  std::ofstream o(file);
  o << "{\n \"property\": " << json_str(check_info.id) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << st.evals
    << ",\n  \"distinct_nontrivial\": " << st.distinct.size() << ",\n  \"rule\": " << json_str(check_info.rule)
    << ",\n  \"discarded\": " << st.discards << ",\n  \"classes\": {";
  bool first = true;
  for (auto & [k, v] : st.classes) o << (first ? "" : ",") << "\n   " << json_str(k) << ": " << v, first = false;
  o << "},\n  \"cases_per_oracle\": {";
  first = true;
  for (auto & [k, v] : st.per_prop) o << (first ? "" : ",") << "\n   " << json_str(k) << ": " << v, first = false;
  o << "},\n  \"discard_reasons\": {";
  first = true;
  for (auto & [k, v] : st.discard_why) o << (first ? "" : ",") << "\n   " << json_str(k) << ": " << v, first = false;
  o << "},\n  \"known_findings_hit\": {";
  first = true;
  for (auto & [k, v] : st.known) o << (first ? "" : ",") << "\n   " << json_str(k) << ": " << v, first = false;
  o << "},\n  \"samples\": [";
  first = true;
  for (auto & s : st.samples) o << (first ? "" : ",") << "\n   " << json_str(s), first = false;
  o << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto & s : check_info.assumptions) o << (first ? "" : ",") << "\n  " << json_str(s), first = false;
  o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations;
  if (!violation_msg.empty()) o << ",\n \"violation\": " << json_str(violation_msg);
  o << "\n}\n";
}

std::size_t find_prop(const std::string & n)
{
  for (std::size_t i = 0; i < props().size(); ++i)
    if (props()[i].name == n) return i;
  std::cerr << "unknown property function " << n << "\n";
  std::exit(2);
}

void write_replay(const std::string & f, std::size_t prop, const Outcome & o)
{
  std::ofstream out(f);
  out << "check " << check_info.id << "\nprop " << props()[prop].name << "\ntag " << o.tag << "\nchoices";
  for (auto c : o.choices) out << " " << c;
  out << "\n--- case: " << o.notes << "\n--- failure: " << o.msg << "\n";
}

bool read_replay(const std::string & f, std::size_t & prop, std::vector<uint64_t> & choices)
{
  std::ifstream in(f);
  std::string line;
  bool have = false;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "prop") {
      std::string n;
      ss >> n;
      prop = find_prop(n);
      have = true;
    }
    if (k == "choices") {
      uint64_t v;
      while (ss >> v) choices.push_back(v);
      break;
    }
  }
  return have;
}

}  // namespace

int engine_main(int argc, char ** argv)
{
  std::map<std::string, std::string> opt;
  std::string cmd = argc > 1 ? argv[1] : "run", file;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0 && i + 1 < argc) {
      opt[a.substr(2)] = argv[++i];
    } else {
      file = a;
    }
  }
  char tmpl[] = "/tmp/eng.XXXXXX";
  if (!mkdtemp(tmpl)) return 2;
  tmpdir = tmpl;
  struct Cleanup
  {
    ~Cleanup()
    {
      if (!tmpdir.empty()) (void)!system(("rm -rf '" + tmpdir + "'").c_str());
    }
  } cleanup;

  if (cmd == "replay") {
    std::size_t prop = 0;
    std::vector<uint64_t> choices;
    if (!read_replay(file, prop, choices)) return 2;
    auto o = run_forced(prop, choices);
    std::cout << "prop " << props()[prop].name << "\ncase: " << o.notes << "\n";
    if (bad(o)) {
      std::cout << "FAIL [" << o.tag << "] " << o.msg << "\n";
      return 1;
    }
    std::cout << (o.status == kDiscard ? "discarded: " + o.tag : "pass") << "\n";
    return 0;
  }

  const std::string tier = opt.count("tier") ? opt["tier"] : "quick";
  const uint64_t seed    = opt.count("seed") ? std::stoull(opt["seed"]) : 1;
  uint64_t ncases        = tier == "thorough" ? check_info.thorough_cases : check_info.quick_cases;
  if (opt.count("cases")) ncases = std::stoull(opt["cases"]);
  const double budget = opt.count("budget") ? std::stod(opt["budget"]) : (tier == "thorough" ? 600 : 240);
  const unsigned nw   = opt.count("workers") ? static_cast<unsigned>(std::stoul(opt["workers"])) : 8;
  const std::string only        = opt.count("only") ? opt["only"] : "";
  const std::string replay_dir  = opt.count("replays") ? opt["replays"] : ".";
  const std::string evidence    = opt.count("evidence") ? opt["evidence"] : "";
  std::map<std::string, std::string> known;  // tag -> description
  if (opt.count("known")) {
    std::ifstream in(opt["known"]);
    std::string line;
    while (std::getline(in, line)) {
      // known: property=ID tag=TAG description
      std::istringstream ss(line);
      std::string a, b, c, d;
      ss >> a >> b >> c;
      std::getline(ss, d);
      if (a == "known:" && b == std::string("property=") + check_info.id && c.rfind("tag=", 0) == 0) {
        known[c.substr(4)] = d.empty() ? d : d.substr(1);
      }
    }
  }

  // schedule: examples first, then weighted round robin
  std::vector<std::size_t> examples, wheel;
  for (std::size_t i = 0; i < props().size(); ++i) {
    if (!only.empty() && props()[i].name != only) continue;
    if (props()[i].weight == 0) examples.push_back(i);
    for (unsigned k = 0; k < props()[i].weight; ++k) wheel.push_back(i);
  }
  if (wheel.empty()) ncases = 0;
  // interleave the wheel so that a prefix of the run covers all properties
  std::stable_sort(wheel.begin(), wheel.end());
  {
    std::vector<std::pair<double, std::size_t>> pos;
    std::map<std::size_t, unsigned> cnt;
    for (auto i : wheel) pos.push_back({(0.5 + cnt[i]++) / props()[i].weight, i});
    std::stable_sort(pos.begin(), pos.end());
    for (std::size_t k = 0; k < wheel.size(); ++k) wheel[k] = pos[k].second;
  }
  const uint64_t total  = examples.size() + ncases;
  const auto prop_of    = [&](uint64_t i) { return i < examples.size() ? examples[i] : wheel[(i - examples.size()) % wheel.size()]; };

  const auto t0 = std::chrono::steady_clock::now();
  const auto wall = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

  auto * ctl = new (shared_alloc<Ctl>()) Ctl{};
  std::vector<Shared *> sh(nw);
  std::vector<uint64_t *> chm(nw);
  std::vector<pid_t> pid(nw);
  for (unsigned w = 0; w < nw; ++w) {
    sh[w]  = shared_alloc<Shared>();
    chm[w] = shared_alloc<uint64_t>((Src::kCap + 2) * sizeof(uint64_t));
  }
  std::fflush(nullptr);
  std::cout.flush();
  for (unsigned w = 0; w < nw; ++w) {
    sh[w]->status = kPass;
    pid[w]        = fork();
    if (pid[w] != 0) continue;
    // worker
    g_shared = sh[w];
    int fd   = open((tmpdir + "/w" + std::to_string(w) + ".err").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    signal(SIGPROF, on_prof);
    Src::shm = chm[w];
    Stats st;
    while (!ctl->stop) {
      const uint64_t i = ctl->next++;
      if (i >= total) break;
      sh[w]->case_idx = i;
      chm[w][0]       = 0;
      sh[w]->status   = kCrash;  // until proven otherwise
      arm(kHangSeconds);
      const std::size_t p = prop_of(i);
      Src s(mix(seed, i));
      std::string tag, msg;
      auto r = run_here(props()[p], s, tag, msg);
      if (r == kFail && known.count(tag)) {
        ++st.known[tag];
        r = kPass;
      }
      if (r == kFail) {
        put(sh[w]->tag, sizeof sh[w]->tag, tag);
        put(sh[w]->msg, sizeof sh[w]->msg, msg);
        sh[w]->status = kFail;
        dump_stats(st, tmpdir + "/w" + std::to_string(w) + ".st");
        _exit(3);
      }
      sh[w]->status = kPass;
      ++st.evals;
      if (r == kDiscard) {
        ++st.discards;
        ++st.discard_why[props()[p].name + ": " + tag];
        continue;
      }
      ++st.per_prop[props()[p].name];
      for (auto & [k, v] : s.classes) ++st.classes[k];
      if (s.is_nontrivial) {
        uint64_t h = p;
        for (auto c : s.recorded) h = mix(h, c);
        if (st.distinct.insert(h).second && st.samples.size() < 2 && s.notes.size()) {
          std::string n = props()[p].name + ": " + s.notes;
          if (n.size() > 500) n.resize(500);
          std::replace(n.begin(), n.end(), '\n', ' ');
          st.samples.push_back(n);
        }
      }
    }
    dump_stats(st, tmpdir + "/w" + std::to_string(w) + ".st");
    _exit(0);
  }

  // wait
  int failed_worker = -1;
  unsigned alive    = nw;
  while (alive) {
    int ws      = 0;
    const pid_t p = waitpid(-1, &ws, WNOHANG);
    if (p == 0 || (p < 0 && errno == EINTR)) {
      if (wall() > budget) ctl->stop = true;
      if (wall() > budget + 3 * kHangSeconds) {
        for (unsigned w = 0; w < nw; ++w)
          if (pid[w] > 0) kill(pid[w], SIGKILL);
        std::cout << "inconclusive: worker stuck beyond time budget\n";
        return 2;
      }
      usleep(20000);
      continue;
    }
    if (p < 0) break;
    for (unsigned w = 0; w < nw; ++w) {
      if (pid[w] != p) continue;
      pid[w] = -1;
      --alive;
      const bool clean = WIFEXITED(ws) && WEXITSTATUS(ws) == 0;
      if (!clean) {
        ctl->stop = true;
        // prefer the earliest failing case
        if (failed_worker < 0 || sh[w]->case_idx < sh[failed_worker]->case_idx) failed_worker = static_cast<int>(w);
      }
    }
  }

  Stats st;
  for (unsigned w = 0; w < nw; ++w) merge_stats(st, tmpdir + "/w" + std::to_string(w) + ".st");
  if (st.samples.size() > 6) st.samples.resize(6);

  int violations = 0;
  std::string vmsg;
  if (failed_worker >= 0) {
    const auto w = static_cast<unsigned>(failed_worker);
    Outcome o;
    const uint64_t idx = sh[w]->case_idx;
    const auto p       = prop_of(idx);
    o.status           = static_cast<Status>(sh[w]->status.load());
    o.tag              = sh[w]->tag;
    o.msg              = sh[w]->msg;
    o.choices.assign(chm[w] + 1, chm[w] + 1 + chm[w][0]);
    if (o.status == kCrash) o.tag = "crash", o.msg = slurp(tmpdir + "/w" + std::to_string(w) + ".err");
    if (o.status == kHang) o.tag = "hang";
    std::cout << "case " << idx << " of " << props()[p].name << " failed [" << o.tag << "] " << o.msg.substr(0, 2000)
              << "\n";
    // confirm, shrink
    auto first = run_forced(p, o.choices);
    if (!bad(first)) {
      std::cout << "not reproducible from its choice sequence in a fresh process\n";
      first = o;
      // history across cases within a worker must not matter: treat as error of the check
      write_evidence(evidence, tier, seed, st, wall(), 0, "");
      return 2;
    }
    auto best = shrink(p, first, opt.count("shrink") ? std::stod(opt["shrink"]) : 90);
    int again = 0;
    for (int k = 0; k < 3; ++k) {
      auto r = run_forced(p, best.choices);
      if (bad(r)) ++again;
      if (best.status == kHang && k == 0 && bad(r)) again = 3, k = 3;
    }
    (void)mkdir(replay_dir.c_str(), 0755);
    const std::string rf = replay_dir + "/" + check_info.id + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    write_replay(rf, p, best);
    if (again < 3) {
      std::cout << "failure reproduces only " << again << "/3 times\n";
      write_evidence(evidence, tier, seed, st, wall(), 0, "");
      return 2;
    }
    violations = 1;
    vmsg       = cat(props()[p].name, " [", best.tag, "] ", best.msg.substr(0, 3000), " case: ", best.notes.substr(0, 3000));
    std::cout << "shrunk case: " << best.notes << "\nfailure [" << best.tag << "]: " << best.msg << "\n";
    if (!evidence.empty()) write_evidence(evidence, tier, seed, st, wall(), violations, vmsg);
    std::cout << "VIOLATION property=" << check_info.id << " replay=" << rf << std::endl;
    return 1;
  }

  for (auto & [tag, desc] : known)
    std::cout << "KNOWN-FINDING: property=" << check_info.id << " " << tag << " " << desc << " (seen " << st.known[tag]
              << " times in this run)\n";
  if (!evidence.empty()) write_evidence(evidence, tier, seed, st, wall(), 0, "");
  if (opt.count("verbose")) {
    for (auto & [k, v] : st.classes) std::cout << "  class " << k << ": " << v << "\n";
    for (auto & [k, v] : st.per_prop) std::cout << "  prop " << k << ": " << v << "\n";
    for (auto & [k, v] : st.discard_why) std::cout << "  discard " << k << ": " << v << "\n";
  }
  std::cout << check_info.id << " ok: " << st.evals << " cases (" << st.distinct.size() << " distinct non-trivial, "
            << st.discards << " discarded) in " << wall() << " s\n";
  if (st.evals == 0) return 2;
  return 0;
}

}  // namespace eng

extern "C" const char * __asan_default_options()
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:max_malloc_fill_size=268435456:malloc_fill_byte=255:detect_stack_use_after_return=0";
}
extern "C" const char * __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=98"; }

#ifndef ENGINE_LIBFUZZER
int main(int argc, char ** argv) { return eng::engine_main(argc, argv); }
#endif
