// Remote calls and progress calls under the controlled scheduler.
#include "simtopic.h"

#include <a0/prpc.h>
#include <a0/rpc.h>
using namespace mc;
using sim::Got;

static const size_t ROOM = 16000;
static const int NS = 2, NC = 2, NQ = 4;  // servers, clients, requests of one thread
static a0_rpc_server_t* srv[NS];
static a0_rpc_client_t* cli[NC];
static a0_prpc_server_t* psrv[NS];
static a0_prpc_client_t* pcli[NC];
static const a0_rpc_topic_t TR = {"a", nullptr};
static const a0_prpc_topic_t TP = {"a", nullptr};
static uint64_t DL;

// One request or connection. User u is a thread of a client.
struct Req {
  bool sent;             // sending has returned
  bool has_cb;
  int calls;             // callback calls
  int served[NS], cancels[NS];
  bool cancelling, cancelled;  // cancelling begun / returned
  bool foreign;          // by another client
  std::string reply;     // what came
  std::vector<std::pair<std::string, bool>> got;  // progress
  int late;              // replies begun after cancelling had returned
  std::vector<std::pair<std::string, bool>> written;  // progress written by the servers, in order
  int replies;           // written
};
static Req req[4][NQ];
struct Pend {
  int u, n;
  a0_uuid_t id;
};
static std::vector<Pend> pend[NS];  // requests a server has still to answer
static bool up[NS], srv_closed[NS], cli_closed[NC], srv_in[NS], cli_in[NC];
static std::string sbuf[NS], cbuf[NC], obuf[4];
static int nresp;
static bool close_inside;  // callbacks try to close their own client or server
static bool allocd_late, blocked_done[4];

static void reset() {
  sim::reset(ROOM);
  for (auto& a : req)
    for (auto& r : a) r = Req();
  for (int i = 0; i < NS; i++) {
    pend[i].clear();
    up[i] = srv_closed[i] = srv_in[i] = false;
    sbuf[i].clear();
  }
  for (int i = 0; i < NC; i++) {
    cli_closed[i] = cli_in[i] = false;
    cbuf[i].clear();
  }
  for (auto& b : obuf) b.clear();
  for (auto& b : blocked_done) b = false;
  nresp = 0;
  DL = now_ns() + 1000000;
}
static bool which(const char* id, int* u, int* n) { return sscanf(id, "%02d%02d", u, n) == 2 && *u < 4 && *n < NQ; }
static a0_packet_header_t uh = {(char*)"user-key", (char*)"user-val"};
static std::string body(int u, int n) { return "ask-" + std::to_string(u) + "-" + std::to_string(n); }
static std::string answer(int s, int u, int n, int k) { return "tell-" + std::to_string(s) + "-" + std::to_string(u) + "-" + std::to_string(n) + "-" + std::to_string(k); }

// ---- rpc ----------------------------------------------------------------------------------
enum How { INLINE, REVERSE, THREAD, NEVER, TWICE };
static void reply(int s, const Pend& p) {
  Req& r = req[p.u][p.n];
  std::string b = answer(s, p.u, p.n, 0);
  a0_rpc_request_t q;
  memset(&q, 0, sizeof q);
  q.server = srv[s];
  memcpy(q.pkt.id, p.id, sizeof p.id);
  if (r.cancelled) r.late++;
  MC_CHECK(!a0_rpc_server_reply(q, sim::packet(80 + s, nresp++, b.c_str(), &uh)), "replying failed");
  r.replies++;
}
struct SrvArg {
  int s;
  How how;
  int batch;
};
static SrvArg sarg[NS];
static void on_request(void* ud, a0_rpc_request_t q) {
  SrvArg& a = *(SrvArg*)ud;
  Pend p;
  {
    Atomic at;
    MC_CHECK(!srv_closed[a.s], "a request is handed to a closed server");
    MC_CHECK(!srv_in[a.s], "a server is called twice at once");
    srv_in[a.s] = true;
    Got g = sim::read_packet(q.pkt);
    MC_CHECK(q.server == srv[a.s], "a request names another server");
    MC_CHECK(which(g.id.c_str(), &p.u, &p.n), "a packet that is no request is handed to the server: %s %s", g.id.c_str(), g.payload.c_str());
    Req& r = req[p.u][p.n];
    MC_CHECK(g.payload == body(p.u, p.n) && sim::intact(g), "a request is damaged");
    MC_CHECK(++r.served[a.s] == 1, "a request is handed to the server twice");
    memcpy(p.id, q.pkt.id, sizeof p.id);
    if (a.how != INLINE && a.how != TWICE && a.how != NEVER) pend[a.s].push_back(p);
  }
  point();
  if (close_inside) MC_CHECK(a0_rpc_server_close(srv[a.s]), "closing a server in its own callback claims to have succeeded");
  if (a.how == INLINE || a.how == TWICE) reply(a.s, p);
  if (a.how == TWICE) reply(a.s, p);
  if (a.how == REVERSE && (int)pend[a.s].size() == a.batch)
    while (!pend[a.s].empty()) {
      Pend x = pend[a.s].back();
      pend[a.s].pop_back();
      reply(a.s, x);
    }
  srv_in[a.s] = false;
}
static void on_cancel(void* ud, a0_uuid_t id) {
  SrvArg& a = *(SrvArg*)ud;
  Atomic at;
  int u, n;
  MC_CHECK(!srv_closed[a.s], "a cancellation is handed to a closed server");
  MC_CHECK(which(id, &u, &n), "the server is told of a cancellation of %.36s", id);
  MC_CHECK(req[u][n].cancelling, "the server is told of a cancellation nobody made");
  req[u][n].cancels[a.s]++;
}
static bool init_too;  // initialisation is interleaved with the others
static bool all_done(const std::vector<int>& f) {
  for (int x : f)
    if (!finished(x) && !died(x)) return false;
  return true;
}
static std::vector<int> users;  // fibers of client threads
static a0_err_t s_alloc(void* u, size_t n, a0_buf_t* out) { return sim::keep_alloc(u, n, out); }
// a server that lives until all clients are done, or (early) is closed at once after `after` requests
static void server(int proc, int s, How how, int batch, int early = -1, bool cancel_cb = true) {
  sarg[s] = {s, how, batch};
  spawn(proc, s ? "server2" : "server", [=] {
    a0_alloc_t al = {&sbuf[s], s_alloc, nullptr};
    a0_rpc_request_callback_t rc = {&sarg[s], on_request};
    a0_packet_id_callback_t cc = {&sarg[s], cancel_cb ? on_cancel : nullptr};
    if (!init_too) silent(true);
    MC_CHECK(!a0_rpc_server_init(srv[s], TR, al, rc, cc), "server init failed");
    if (!init_too) silent(false);
    up[s] = true;
    if (how == THREAD) {
      while (1) {
        await([=] { return !pend[s].empty() || all_done(users); });
        if (pend[s].empty()) break;
        Pend p = pend[s].front();
        pend[s].erase(pend[s].begin());
        reply(s, p);
      }
    }
    if (early < 0) await([] { return all_done(users); });
    else await([=] {
      int k = 0;
      for (auto& a : req)
        for (auto& r : a) k += r.served[s];
      return k >= early || all_done(users);
    });
    MC_CHECK(!a0_rpc_server_close(srv[s]), "server close failed");
    MC_CHECK(!srv_in[s], "closing a server returned while its callback runs");
    srv_closed[s] = true;
  });
}
struct CbArg {
  int c, u, n;
};
static CbArg carg[4][NQ];
static void take_reply(int u, int n, const Got& g) {
  Req& r = req[u][n];
  int s, uu, nn, k;
  MC_CHECK(sscanf(g.payload.c_str(), "tell-%d-%d-%d-%d", &s, &uu, &nn, &k) == 4, "what came is no reply: %s", g.payload.c_str());
  MC_CHECK(uu == u && nn == n, "request %d of user %d got the reply to request %d of user %d", n, u, nn, uu);
  MC_CHECK(sim::intact(g), "a reply is damaged");
  r.reply = g.payload;
  outcome(u * 1000 + n * 100 + s);
}
static void on_response(void* ud, a0_packet_t k) {
  CbArg& a = *(CbArg*)ud;
  {
    Atomic at;
    MC_CHECK(!cli_closed[a.c], "a reply is delivered after the client was closed");
    MC_CHECK(!cli_in[a.c], "a client is called twice at once");
    cli_in[a.c] = true;
    Req& r = req[a.u][a.n];
    r.calls++;
    MC_CHECK(r.calls == 1, "the callback of a request is called twice");
    take_reply(a.u, a.n, sim::read_packet(k));
  }
  point();
  if (close_inside) MC_CHECK(a0_rpc_client_close(cli[a.c]), "closing a client in its own callback claims to have succeeded");
  cli_in[a.c] = false;
}
static bool expects_reply;
// ops: s send with callback, n send without, b blocking, t timed blocking, w wait for the replies so far, S wait until the server has the requests so far, c cancel the first request, C the second, H wait until the server has heard of that, x the first of the first user once the server has it
static void ops(int c, int u, const std::string& script) {
  int n = 0;
  for (char op : script) {
    if (op == 'w') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (req[u][i].has_cb && !req[u][i].calls && !req[u][i].cancelled) return false;
        return true;
      });
      continue;
    }
    if (op == 'H') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (req[u][i].cancelled && !req[u][i].cancels[0]) return false;
        return true;
      });
      continue;
    }
    if (op == 'S') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (!req[u][i].served[0]) return false;
        return true;
      });
      continue;
    }
    if (op == 'c' || op == 'C' || op == 'x') {
      a0_uuid_t id;
      int k = op == 'C' ? 1 : 0, w = op == 'x' ? 0 : u;
      sim::id_for(id, w, k);
      Req& r = req[w][k];
      if (op == 'x') await([&r] { return r.served[0] > 0; });
      r.cancelling = true;
      r.foreign = c != (w >= 2);
      MC_CHECK(!a0_rpc_client_cancel(cli[c], id), "cancelling failed");
      r.cancelled = true;
      continue;
    }
    Req& r = req[u][n];
    std::string b = body(u, n);
    a0_packet_t k = sim::packet(u, n, b.c_str(), &uh);
    carg[u][n] = {c, u, n};
    a0_packet_callback_t cb = {&carg[u][n], on_response};
    if (op == 'n') cb.fn = nullptr;
    r.has_cb = op == 's';
    if (op == 's' || op == 'n') {
      MC_CHECK(!a0_rpc_client_send(cli[c], k, cb), "sending failed");
    } else {
      a0_alloc_t al = {&obuf[u], s_alloc, nullptr};
      a0_packet_t out;
      a0_time_mono_t until = sim::at(DL);
      a0_err_t e = op == 'b' ? a0_rpc_client_send_blocking(cli[c], k, al, &out) : a0_rpc_client_send_blocking_timeout(cli[c], k, &until, al, &out);
      outcome(e);
      if (!e) {
        Atomic at;
        take_reply(u, n, sim::read_packet(out));
      } else if (op == 't' && sim::err(e) == ETIMEDOUT) MC_CHECK(now_ns() >= DL, "a timed call gave up before its deadline");
      else MC_CHECK(e == A0_ERR_CANCELLED && r.cancelling, "a blocking call failed with %d/%d", e, sim::err(e));
    }
    r.sent = true;
    n++;
  }
}
// a client whose threads run the scripts; the client is closed once all are done
static void client(int proc, int c, std::vector<std::string> scripts, int u0, int nserv, int flags = 0) {
  int main_ = spawn(proc, c ? "client2" : "client", [=] {
    a0_alloc_t al = {&cbuf[c], s_alloc, nullptr};
    if (!init_too) silent(true);
    MC_CHECK(!a0_rpc_client_init(cli[c], TR, al), "client init failed");
    if (!init_too) silent(false);
    await([=] {
      for (int s = 0; s < nserv; s++)
        if (!up[s]) return false;
      return true;
    });
    std::vector<int> th;
    for (size_t i = 1; i < scripts.size(); i++) th.push_back(spawn(proc, "caller", [=] { ops(c, u0 + i, scripts[i]); }, flags));
    ops(c, u0, scripts[0]);
    if (!th.empty()) await([=] { return all_done(th); });
    MC_CHECK(!a0_rpc_client_close(cli[c]), "client close failed");
    MC_CHECK(!cli_in[c], "closing a client returned while its callback runs");
    cli_closed[c] = true;
  }, flags);
  users.push_back(main_);
}
static void judge(int nserv, bool all_served, bool alive = true) {
  for (int u = 0; u < 4; u++)
    for (int n = 0; n < NQ; n++) {
      Req& r = req[u][n];
      for (int s = 0; s < nserv; s++) {
        if (all_served && r.sent) MC_CHECK(r.served[s] == 1, "a request was not handed to server %d", s);
        if (all_served && r.cancelled) MC_CHECK(r.cancels[s] == 1, "server %d was told %d times of a cancellation", s, r.cancels[s]);
        MC_CHECK(r.cancels[s] <= 1, "server %d was told %d times of a cancellation", s, r.cancels[s]);
      }
      if (r.cancelled && !r.foreign && r.late == r.replies) MC_CHECK(!r.calls, "a callback was called with a reply written after the cancellation");
      MC_CHECK(r.calls <= (r.has_cb ? 1 : 0), "%d calls of a callback", r.calls);
      outcome(r.calls * 2 + r.late);
    }
  if (alive) MC_CHECK(sim::nopen == 0, "%d files are left open", sim::nopen);
}
static Config heap(Config c) {
  c.heap = true;
  return c;
}
static Config nosh(Config c) {
  c.shared = false;
  return c;
}
static Config tick(Config c) {
  c.ticks = 1;
  return c;
}
static Config die(Config c) {
  c.crash = 1;
  return c;
}
struct Rpc {
  const char* prop;
  const char* nm;
  How how;
  int batch;
  std::vector<std::string> c1, c2;
  int servers = 1;
  bool served = true;
  int flags1 = 0;
  int early = -1;
  bool timed = false, cancel_cb = true, init = false, inside = false;
};
static void rpc(Rpc c, Config q, Config t) {
  scenario(c.prop, c.nm, q, t, [=] {
    reset();
    users.clear();
    init_too = c.init;
    close_inside = c.inside;
    if (c.timed) add_deadline(DL);
    client(0, 0, c.c1, 0, c.servers, c.flags1);
    if (!c.c2.empty()) client(1, 1, c.c2, 2, c.servers);
    for (int s = 0; s < c.servers; s++) server(2 + s, s, c.how, c.batch, c.early, c.cancel_cb);
    run();
    judge(c.servers, c.served, !c.flags1);
  });
}

// ---- progress calls -------------------------------------------------------------------------
static int nprog;
static bool extra;  // the server goes on after it has completed a connection
static void advance(int s, const Pend& p, int k, bool done) {
  Req& r = req[p.u][p.n];
  std::string b = answer(s, p.u, p.n, k);
  a0_prpc_connection_t q;
  memset(&q, 0, sizeof q);
  q.server = psrv[s];
  memcpy(q.pkt.id, p.id, sizeof p.id);
  if (r.cancelled) r.late++;
  if (r.written.empty() || !r.written.back().second) r.written.push_back({b, done});
  MC_CHECK(!a0_prpc_server_send(q, sim::packet(80 + s, nresp++, b.c_str(), &uh), done), "sending progress failed");
}
static void all_of(int s, const Pend& p) {
  for (int k = 0; k < nprog; k++) advance(s, p, k, false);
  advance(s, p, nprog, true);
  if (extra) {
    advance(s, p, nprog + 1, false);
    advance(s, p, nprog + 2, true);
  }
}
static void on_connect(void* ud, a0_prpc_connection_t q) {
  SrvArg& a = *(SrvArg*)ud;
  Pend p;
  {
    Atomic at;
    MC_CHECK(!srv_closed[a.s], "a connection is handed to a closed server");
    MC_CHECK(!srv_in[a.s], "a server is called twice at once");
    srv_in[a.s] = true;
    Got g = sim::read_packet(q.pkt);
    MC_CHECK(q.server == psrv[a.s], "a connection names another server");
    MC_CHECK(which(g.id.c_str(), &p.u, &p.n), "a packet that is no connection is handed to the server: %s %s", g.id.c_str(), g.payload.c_str());
    Req& r = req[p.u][p.n];
    MC_CHECK(g.payload == body(p.u, p.n) && sim::intact(g), "a connection is damaged");
    MC_CHECK(++r.served[a.s] == 1, "a connection is handed to the server twice");
    memcpy(p.id, q.pkt.id, sizeof p.id);
    if (a.how == THREAD || a.how == REVERSE) pend[a.s].push_back(p);
  }
  point();
  if (close_inside) MC_CHECK(a0_prpc_server_close(psrv[a.s]), "closing a server in its own callback claims to have succeeded");
  if (a.how == INLINE) all_of(a.s, p);
  if (a.how == REVERSE && (int)pend[a.s].size() == a.batch) {
    // round by round over all connections
    for (int k = 0; k <= nprog; k++)
      for (auto& x : pend[a.s]) advance(a.s, x, k, k == nprog);
    pend[a.s].clear();
  }
  srv_in[a.s] = false;
}
static void pserver(int proc, int s, How how, int batch, int early, bool cancel_cb) {
  sarg[s] = {s, how, batch};
  spawn(proc, s ? "server2" : "server", [=] {
    a0_alloc_t al = {&sbuf[s], s_alloc, nullptr};
    a0_prpc_connection_callback_t rc = {&sarg[s], on_connect};
    a0_packet_id_callback_t cc = {&sarg[s], cancel_cb ? on_cancel : nullptr};
    if (!init_too) silent(true);
    MC_CHECK(!a0_prpc_server_init(psrv[s], TP, al, rc, cc), "server init failed");
    if (!init_too) silent(false);
    up[s] = true;
    if (how == THREAD) {
      while (1) {
        await([=] { return !pend[s].empty() || all_done(users); });
        if (pend[s].empty()) break;
        Pend p = pend[s].front();
        pend[s].erase(pend[s].begin());
        all_of(s, p);
      }
    }
    if (early < 0) await([] { return all_done(users); });
    else await([=] {
      int k = 0;
      for (auto& a : req)
        for (auto& r : a) k += r.served[s];
      return k >= early || all_done(users);
    });
    MC_CHECK(!a0_prpc_server_close(psrv[s]), "server close failed");
    MC_CHECK(!srv_in[s], "closing a server returned while its callback runs");
    srv_closed[s] = true;
  });
}
static void on_progress(void* ud, a0_packet_t k, bool done) {
  CbArg& a = *(CbArg*)ud;
  {
    Atomic at;
    MC_CHECK(!cli_closed[a.c], "progress is delivered after the client was closed");
    MC_CHECK(!cli_in[a.c], "a client is called twice at once");
    cli_in[a.c] = true;
    Req& r = req[a.u][a.n];
    Got g = sim::read_packet(k);
    int s, uu, nn, x;
    MC_CHECK(sscanf(g.payload.c_str(), "tell-%d-%d-%d-%d", &s, &uu, &nn, &x) == 4, "a packet that is no progress is delivered to connection %d of user %d", a.n, a.u);
    MC_CHECK(uu == a.u && nn == a.n, "connection %d of user %d got progress of connection %d of user %d", a.n, a.u, nn, uu);
    MC_CHECK(sim::intact(g), "progress is damaged");
    MC_CHECK(r.got.empty() || !r.got.back().second, "progress is delivered after the completion");
    r.got.push_back({g.payload, done});
    if (done) r.calls++;
  }
  point();
  if (close_inside) MC_CHECK(a0_prpc_client_close(pcli[a.c]), "closing a client in its own callback claims to have succeeded");
  cli_in[a.c] = false;
}
// ops: k connect, K connect without callback, w wait for all completions, p wait for the first progress of the first connection, S, c, C, x as above
static void pops(int c, int u, const std::string& script) {
  int n = 0;
  for (char op : script) {
    if (op == 'w') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (req[u][i].has_cb && !req[u][i].calls && !req[u][i].cancelled) return false;
        return true;
      });
    } else if (op == 'p') {
      await([=] { return !req[u][0].got.empty(); });
    } else if (op == 'H') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (req[u][i].cancelled && !req[u][i].cancels[0]) return false;
        return true;
      });
    } else if (op == 'S') {
      await([=] {
        for (int i = 0; i < n; i++)
          if (!req[u][i].served[0]) return false;
        return true;
      });
    } else if (op == 'W') {
      // the server has answered everything
      await([=] {
        for (int i = 0; i < n; i++)
          if (req[u][i].written.empty() || !req[u][i].written.back().second) return false;
        return true;
      });
    } else if (op == 'c' || op == 'C' || op == 'x') {
      a0_uuid_t id;
      int k = op == 'C' ? 1 : 0, w = op == 'x' ? 0 : u;
      sim::id_for(id, w, k);
      Req& r = req[w][k];
      if (op == 'x') await([&r] { return r.served[0] > 0; });
      r.cancelling = true;
      r.foreign = c != (w >= 2);
      MC_CHECK(!a0_prpc_client_cancel(pcli[c], id), "cancelling failed");
      r.cancelled = true;
    } else {
      Req& r = req[u][n];
      std::string b = body(u, n);
      a0_packet_t k = sim::packet(u, n, b.c_str(), &uh);
      carg[u][n] = {c, u, n};
      a0_prpc_progress_callback_t cb = {&carg[u][n], on_progress};
      if (op == 'K') cb.fn = nullptr;
      r.has_cb = op == 'k';
      MC_CHECK(!a0_prpc_client_connect(pcli[c], k, cb), "connecting failed");
      r.sent = true;
      n++;
    }
  }
}
static void pclient(int proc, int c, std::vector<std::string> scripts, int u0, int nserv, int flags = 0) {
  int main_ = spawn(proc, c ? "client2" : "client", [=] {
    a0_alloc_t al = {&cbuf[c], s_alloc, nullptr};
    if (!init_too) silent(true);
    MC_CHECK(!a0_prpc_client_init(pcli[c], TP, al), "client init failed");
    if (!init_too) silent(false);
    await([=] {
      for (int s = 0; s < nserv; s++)
        if (!up[s]) return false;
      return true;
    });
    std::vector<int> th;
    for (size_t i = 1; i < scripts.size(); i++) th.push_back(spawn(proc, "caller", [=] { pops(c, u0 + i, scripts[i]); }, flags));
    pops(c, u0, scripts[0]);
    if (!th.empty()) await([=] { return all_done(th); });
    MC_CHECK(!a0_prpc_client_close(pcli[c]), "client close failed");
    MC_CHECK(!cli_in[c], "closing a client returned while its callback runs");
    cli_closed[c] = true;
  }, flags);
  users.push_back(main_);
}
static void prpc(const char* nm, Rpc c, int np, Config q, Config t, bool ext = false) {
  scenario("Q03", nm, q, t, [=] {
    reset();
    users.clear();
    init_too = c.init;
    close_inside = c.inside;
    nprog = np;
    extra = ext;
    pclient(0, 0, c.c1, 0, c.servers, c.flags1);
    if (!c.c2.empty()) pclient(1, 1, c.c2, 2, c.servers);
    for (int s = 0; s < c.servers; s++) pserver(2 + s, s, c.how, c.batch, c.early, c.cancel_cb);
    run();
    for (int u = 0; u < 4; u++)
      for (int n = 0; n < NQ; n++) {
        Req& r = req[u][n];
        if (c.served && r.sent)
          for (int s = 0; s < c.servers; s++) MC_CHECK(r.served[s] == 1, "a connection was not handed to server %d", s);
        for (int s = 0; s < c.servers; s++) {
          MC_CHECK(r.cancels[s] <= 1, "server %d was told %d times of a cancellation", s, r.cancels[s]);
          if (c.served && r.cancelled && c.cancel_cb) MC_CHECK(r.cancels[s] == 1, "server %d was not told of a cancellation", s);
        }
        MC_CHECK(r.has_cb || r.got.empty(), "a connection without callback is called");
        MC_CHECK(r.got.size() <= r.written.size(), "more progress came than was sent");
        for (size_t k = 0; k < r.got.size() && c.servers == 1; k++) MC_CHECK(r.got[k] == r.written[k], "progress %zu is %s%s, sent was %s%s", k, r.got[k].first.c_str(), r.got[k].second ? " (complete)" : "", r.written[k].first.c_str(), r.written[k].second ? " (complete)" : "");
        if (r.cancelled && !r.foreign) MC_CHECK((int)r.got.size() <= (int)r.written.size() - (extra ? r.late > 2 ? r.late - 2 : 0 : r.late), "progress sent after the cancellation is delivered");
        else if (c.served && !(c.flags1 && u < 2) && r.has_cb && r.sent && c.early < 0 && c.c1[0].find('w') != std::string::npos) MC_CHECK(r.got.size() == r.written.size(), "%zu of %zu progress packets came", r.got.size(), r.written.size());
        outcome(r.got.size() * 16 + r.late);
      }
    if (!c.flags1) MC_CHECK(sim::nopen == 0, "%d files are left open", sim::nopen);
  });
}

template <class T, size_t N>
static void handles(T* (&a)[N]) {
  for (auto& h : a) h = (T*)make_handle(sizeof(T));
}
void define_scenarios() {
  sim::setup(ROOM);
  handles(srv), handles(cli), handles(psrv), handles(pcli);
  auto D = [](int n) {
    Config c = nosh(cfg(n));
    c.delay = true;
    return c;
  };
  auto I = [](Rpc r) {
    r.init = true;
    return r;
  };
  auto timed = [](Rpc r) {
    r.timed = true;
    return r;
  };
  auto nocb = [](Rpc r) {
    r.cancel_cb = false;
    return r;
  };
  rpc(I({"Q01", "call", INLINE, 0, {"sw"}, {}}), heap(D(2)), heap(D(3)));
  rpc(I({"Q01", "call_fine", INLINE, 0, {"sw"}, {}}), cfg(1), cfg(2));
  rpc({"Q01", "call_all", INLINE, 0, {"sw"}, {}}, nosh(cfg(1)), nosh(cfg(2)));
  rpc({"Q01", "call2", INLINE, 0, {"ssw"}, {}}, D(2), D(3));
  rpc({"Q01", "call2_reverse", REVERSE, 2, {"ssw"}, {}}, D(2), D(3));
  rpc({"Q01", "call2_thread", THREAD, 0, {"ssw"}, {}}, D(2), D(3));
  rpc({"Q01", "call3_reverse", REVERSE, 3, {"sssw"}, {}}, D(2), D(3));
  rpc({"Q01", "call_twice", TWICE, 0, {"snwS"}, {}}, D(2), D(3));
  rpc(I({"Q01", "block", INLINE, 0, {"b"}, {}}), heap(D(2)), heap(D(3)));
  rpc(I({"Q01", "block_fine", INLINE, 0, {"b"}, {}}), cfg(1), cfg(2));
  rpc({"Q01", "block_all", INLINE, 0, {"b"}, {}}, nosh(cfg(1)), nosh(cfg(2)));
  rpc({"Q01", "block_thread", THREAD, 0, {"bb"}, {}}, D(2), D(3));
  rpc({"Q01", "block2_call", INLINE, 0, {"sbbw"}, {}}, D(2), D(3));
  rpc({"Q01", "two_threads", INLINE, 0, {"sw", "sw"}, {}}, heap(D(2)), heap(D(3)));
  rpc({"Q01", "two_threads2", INLINE, 0, {"ssw", "ssw"}, {}}, D(1), D(2));
  rpc({"Q01", "two_threads_block", INLINE, 0, {"b", "b"}, {}}, heap(D(2)), heap(D(3)));
  rpc({"Q01", "two_threads_reverse", REVERSE, 2, {"b", "sw"}, {}}, heap(D(1)), heap(D(3)));
  rpc({"Q01", "two_clients", INLINE, 0, {"sw"}, {"sw"}}, D(2), D(3));
  rpc({"Q01", "two_clients_block", INLINE, 0, {"b"}, {"b"}}, D(1), D(3));
  rpc({"Q01", "two_clients_reverse", REVERSE, 2, {"b"}, {"sw"}}, D(1), D(3));
  rpc({"Q01", "two_clients_thread", THREAD, 0, {"b"}, {"sw"}}, D(2), D(3));
  rpc({"Q01", "two_servers", INLINE, 0, {"swS"}, {}, 2}, D(2), D(3));
  rpc({"Q01", "two_servers_block", INLINE, 0, {"bS"}, {}, 2}, D(2), D(3));
  rpc(timed({"Q01", "timed", INLINE, 0, {"tS"}, {}}), tick(D(1)), tick(D(2)));
  rpc(timed({"Q01", "timed_call", THREAD, 0, {"tswS"}, {}}), tick(D(1)), tick(D(2)));
  rpc(timed({"Q01", "timed_never", NEVER, 0, {"ttS"}, {}}), tick(D(1)), tick(D(3)));
  rpc(timed({"Q01", "timed_thread", THREAD, 0, {"tnS", "sw"}, {}}), tick(D(1)), tick(D(2)));
  rpc({"Q01", "death", INLINE, 0, {"sw"}, {"b"}, 1, true, KILLABLE}, die(D(1)), die(D(2)));

  auto dl = [](Config c) {
    c.delay = true;
    return c;
  };
  auto inside = [](Rpc r) {
    r.inside = true;
    return r;
  };
  auto early = [](Rpc r, int n) {
    r.served = false;
    r.early = n;
    return r;
  };
  auto unsure = [](Rpc r) {
    r.served = false;
    return r;
  };
  rpc({"Q02", "cancel", THREAD, 0, {"sScSH"}, {}}, heap(D(2)), heap(D(3)));
  rpc({"Q02", "cancel_fine", THREAD, 0, {"sc"}, {}, 1, false}, dl(cfg(1)), cfg(1));
  rpc({"Q02", "cancel_inline", INLINE, 0, {"scswH"}, {}}, D(2), D(3));
  rpc({"Q02", "cancel_second", REVERSE, 2, {"ssCwH"}, {}}, D(2), D(3));
  rpc(nocb({"Q02", "cancel_unheard", INLINE, 0, {"scsw"}, {}, 1, false}), D(1), D(2));
  rpc({"Q02", "cancel_after", INLINE, 0, {"swcswH"}, {}}, D(1), D(2));
  rpc({"Q02", "cancel_thread", THREAD, 0, {"ssw", "x"}, {}, 1, false}, heap(D(2)), heap(D(3)));
  rpc({"Q02", "cancel_blocked", NEVER, 0, {"b", "x"}, {}, 1, false}, heap(D(2)), heap(D(3)));
  rpc({"Q02", "cancel_blocked_reply", THREAD, 0, {"b", "x"}, {}, 1, false}, D(2), D(3));
  rpc({"Q02", "cancel_blocked_other", NEVER, 0, {"b"}, {"x"}, 1, false}, D(2), D(3));
  rpc({"Q02", "cancel_foreign_call", THREAD, 0, {"sw"}, {"x"}, 1, false}, D(2), D(3));
  rpc({"Q02", "cancel_two_servers", INLINE, 0, {"scS"}, {}, 2, false}, D(1), D(2));
  rpc({"Q02", "close_client", INLINE, 0, {"s"}, {}, 1, false}, heap(D(2)), heap(D(3)));
  rpc({"Q02", "close_client_fine", INLINE, 0, {"s"}, {}, 1, false}, cfg(1), cfg(1));
  rpc({"Q02", "close_client_thread", THREAD, 0, {"sS"}, {"bb"}, 1, false}, D(1), D(3));
  rpc(early({"Q02", "close_server", INLINE, 0, {"ss"}, {}}, 0), heap(D(2)), heap(D(3)));
  rpc(early({"Q02", "close_server_1", INLINE, 0, {"ss"}, {}}, 1), D(2), D(3));
  rpc(early({"Q02", "close_server_cancel", NEVER, 0, {"scs"}, {}}, 0), D(2), D(3));
  rpc(early({"Q02", "close_server_fine", INLINE, 0, {"s"}, {}}, 0), dl(cfg(1)), cfg(1));
  rpc(inside({"Q02", "close_inside", INLINE, 0, {"sw"}, {}}), D(1), D(2));
  rpc({"Q02", "death", INLINE, 0, {"sc"}, {"sw"}, 1, false, KILLABLE}, die(D(1)), die(D(2)));

  prpc("one", I({"", "", INLINE, 0, {"kw"}, {}}), 2, heap(D(2)), heap(D(3)));
  prpc("one_fine", I({"", "", INLINE, 0, {"kw"}, {}}), 1, cfg(1), cfg(2));
  prpc("one_thread", {"", "", THREAD, 0, {"kw"}, {}}, 2, D(2), D(3));
  prpc("none", {"", "", INLINE, 0, {"kw"}, {}}, 0, D(2), D(3));
  prpc("extra", {"", "", INLINE, 0, {"kw"}, {}}, 1, D(2), D(3), true);
  prpc("two", {"", "", REVERSE, 2, {"kkw"}, {}}, 1, D(2), D(3));
  prpc("two_inline", {"", "", INLINE, 0, {"kkw"}, {}}, 1, D(2), D(3));
  prpc("two_threads", {"", "", REVERSE, 2, {"kw", "kw"}, {}}, 1, heap(D(1)), heap(D(3)));
  prpc("two_clients", {"", "", REVERSE, 2, {"kw"}, {"kw"}}, 1, D(2), D(3));
  prpc("two_clients_thread", {"", "", THREAD, 0, {"kw"}, {"kw"}}, 1, D(1), D(2));
  prpc("without", {"", "", INLINE, 0, {"KkW"}, {}, 1, false}, 1, D(1), D(2));
  prpc("cancel", {"", "", THREAD, 0, {"kcSH"}, {}}, 2, heap(D(2)), heap(D(3)));
  prpc("cancel_fine", {"", "", THREAD, 0, {"kc"}, {}, 1, false}, 0, dl(cfg(1)), cfg(1));
  prpc("cancel_after_progress", {"", "", THREAD, 0, {"kpckwH"}, {}}, 2, D(2), D(3));
  prpc("cancel_second", {"", "", REVERSE, 2, {"kkCwH"}, {}}, 1, D(2), D(3));
  prpc(  "cancel_foreign", {"", "", THREAD, 0, {"kw"}, {"x"}, 1, false}, 1, D(2), D(3));
  prpc("cancel_thread", {"", "", THREAD, 0, {"kkw", "x"}, {}, 1, false}, 1, D(1), D(2));
  prpc("close_client", {"", "", INLINE, 0, {"k"}, {}, 1, false}, 1, heap(D(2)), heap(D(3)));
  prpc("close_client_thread", {"", "", THREAD, 0, {"kp"}, {}, 1, false}, 2, D(2), D(3));
  prpc("close_server", early({"", "", INLINE, 0, {"k"}, {}}, 0), 1, D(2), D(3));
  prpc("close_inside", inside({"", "", INLINE, 0, {"kw"}, {}}), 1, D(1), D(2));
  prpc("two_servers", {"", "", INLINE, 0, {"kwS"}, {}, 2}, 0, D(1), D(2));
  prpc("death", {"", "", INLINE, 0, {"kw"}, {"kw"}, 1, true, KILLABLE}, 1, die(D(1)), die(D(2)));
}
