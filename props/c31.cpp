// C31: models used from different threads do not disturb one another.
// Every thread runs its own generated program on objects of its own.  The
// programs run at the same time first (under ThreadSanitizer, which reports
// unordered accesses to shared memory whatever the interleaving was), then one
// after the other; the transcripts must be identical, bit for bit.
#include "program.hpp"
#include <atomic>
#include <thread>
using namespace rb;

static void prop(Case &c) {
  int nt = c.range(2, 4);
  Texts T = gen_texts(c);
  const vector<string> &texts = T.robots, &full = T.full;
  vector<Program> P(nt);
  bool mixed[NKIND] = {};
  int theme = gen_theme(c); // all threads hammer the same kind of operation
  for (int t = 0; t < nt; t++) {
    P[t].ops = gen_ops(c, T, theme, 16, 60, "thread " + std::to_string(t) + ": ");
    for (auto &o : P[t].ops)
      mixed[o.kind] = true;
  }
  // a shared model and document each thread gets its own copy of, made in advance
  bool proto = c.chance(50);
  auto fresh = [&](vector<Machine> &ms) {
    std::unique_ptr<KinematicModel> k;
    std::unique_ptr<TiXmlDocument> d;
    if (proto) {
      k.reset(new KinematicModel(texts[0]));
      d.reset(new TiXmlDocument);
      d->Parse(full[0].c_str());
    }
    for (auto &m : ms)
      if (proto) {
        m.k[0].reset(new KinematicModel(*k));
        m.doc.reset(new TiXmlDocument(*d));
      }
  };
  vector<Machine> mc(nt), mf(nt);
  vector<vector<string>> got(nt), want(nt);
  fresh(mc);
  {
    std::atomic<int> ready{0};
    vector<std::thread> th;
    bool all = true;
    try {
      for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < nt)
            std::this_thread::yield();
          run(P[t], mc[t], got[t]);
        });
    } catch (const std::system_error &) { // the machine has no thread to spare
      all = false;
      ready = 1000;
    }
    for (auto &x : th)
      x.join();
    if (!all)
      throw vp::Discard();
  }
  fresh(mf);
  for (int t = 0; t < nt; t++)
    run(P[t], mf[t], want[t]);
  for (int t = 0; t < nt; t++) {
    size_t i = 0;
    for (size_t n = 0; n < P[t].ops.size(); n++)
      for (int r = 0; r < P[t].ops[n].rep; r++, i++)
        if (got[t].at(i) != want[t].at(i))
          c.fail("thread " + std::to_string(t) + ", operation " + std::to_string(n) + " (" + kName[P[t].ops[n].kind] +
                 "): another answer beside other threads than alone");
  }
  size_t total = 0, live = 0;
  for (int t = 0; t < nt; t++) {
    total += P[t].ops.size();
    live += want[t].size() >= 4;
  }
  c.nontrivial = live >= 2;
  c.label(nt == 2 ? "two threads" : nt == 3 ? "three threads" : "four threads");
  if (theme >= 0)
    c.label("same operation hammered by every thread");
  if (proto)
    c.label("copies of one model and one document");
  for (int i = 0; i < NKIND; i++)
    if (mixed[i])
      c.label(string("uses ") + kName[i]);
}
VP_PROP("C31", "2-4 threads, each with its own generated program of 2-16 operations (load, refused load, copy, destroy, updates, all queries, links added, export, XML parsing, editing and printing, rotations, containers) on its own models, run together under ThreadSanitizer and then one after the other; transcripts identical bit for bit and no unordered access to shared memory; non-trivial = at least two threads with four operations or more",
        prop, 4000, 120000, 60)
