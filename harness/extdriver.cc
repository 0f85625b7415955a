// Runs compiled programs in the real executive and records what their
// users would see: assignments, commands, updates, and named statements ending.
//
// usage: extdriver SCENARIOS OUT [jobs]

#include "common.hh"

#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>

using namespace PLEXIL;

static std::map<std::string, Value> g_env;
static bool g_first = true;
static int g_fd = -1;
static int g_batches = 0;
static ExecApplication *g_app = nullptr;

static void emit(std::string const &rec)
{
  std::string s = (g_first ? "" : ",") + rec;
  g_first = false;
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(g_fd, s.data() + off, s.size() - off);
    if (n <= 0) _exit(3);
    off += n;
  }
}

static void in(std::string const &k, std::string const &x)
{
  emit("{\"e\":\"in\",\"k\":" + jstr(k) + ",\"x\":[" + x + "]}");
}

static void ev(std::string const &x)
{
  emit("{\"e\":\"ev\",\"x\":[" + x + "]}");
}

// Commands not answered for good, updates not acknowledged
struct Pending { Command *c; bool aborting; };
static std::vector<Pending> g_pending;
static std::vector<Update *> g_updates;

static std::string joinv(std::vector<std::string> const &v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + v[i];
  return r + "]";
}

static void forget(Command *c)
{
  for (auto it = g_pending.begin(); it != g_pending.end(); )
    if (it->c == c) it = g_pending.erase(it); else ++it;
}

class LH : public LookupHandler
{
public:
  void lookupNow(const State &state, LookupReceiver *rcvr) override
  {
    auto it = g_env.find(state.name());
    if (it != g_env.end())
      rcvr->update(it->second);
    else
      rcvr->setUnknown();
  }
};

class CH : public CommandHandler
{
public:
  void executeCommand(Command *cmd, AdapterExecInterface *) override
  {
    std::vector<std::string> args;
    for (Value const &v : cmd->getArgValues())
      args.push_back(jval(v));
    ev("\"cmd\"," + jstr(cmd->getName()) + "," + joinv(args));
    forget(cmd);
    g_pending.push_back(Pending{cmd, false});
  }
  void abortCommand(Command *cmd, AdapterExecInterface *) override
  {
    ev("\"abort\"," + jstr(cmd->getName()));
    forget(cmd);
    g_pending.push_back(Pending{cmd, true});
  }
};

static std::string updName(Update *u)
{
  return u->getPairs().begin() == u->getPairs().end() ? "" : u->getPairs().begin()->first;
}

static void doUpdate(Update *u, AdapterExecInterface *)
{
  // one pair, whose name tells the update
  std::vector<std::string> vs;
  for (auto const &p : u->getPairs())
    vs.push_back(jval(p.second));
  ev("\"upd\"," + jstr(updName(u)) + "," + joinv(vs));
  g_updates.push_back(u);
}

class Tee : public ExecListenerBase
{
public:
  ExecListenerBase *next = nullptr;
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override
  {
    for (NodeTransition const &t : tr) {
      NodeImpl *n = dynamic_cast<NodeImpl *>(t.node);
      std::string id = t.node->getNodeId();
      if (t.newState == FINISHED_STATE && id.size() > 1 && id[0] == 'N' && isdigit(id[1])
          && n->getOutcome() != SKIPPED_OUTCOME)
        ev("\"fin\"," + jstr(id) + "," + jstr(outcomeName(n->getOutcome())));
    }
    if (++g_batches >= 1500) {
      emit("{\"e\":\"runaway\"}");
      _exit(0);
    }
    if (next) next->notifyOfTransitions(tr);
  }
  void notifyOfAssignment(Expression const *dest, std::string const &name, Value const &value) override
  {
    ev("\"set\"," + jstr(name) + "," + jval(value));
    if (next) next->notifyOfAssignment(dest, name, value);
  }
  void stepComplete(unsigned int cycle) override
  {
    if (next) next->stepComplete(cycle);
  }
};

static int child(std::vector<std::vector<std::string>> const &ops)
{
  pugi::xml_document cdoc;
  cdoc.load_string("<Interfaces></Interfaces>");
  g_app = makeExecApplication();
  g_env["time"] = Value((Real) 0.0);
  AdapterConfiguration *cfg = g_app->configuration();
  auto lh = std::make_shared<LH>();
  cfg->setDefaultLookupHandler(lh);
  cfg->setDefaultCommandHandler(std::make_shared<CH>());
  cfg->registerLookupHandler(lh, "time");
  cfg->registerPlannerUpdateHandler(doUpdate);
  if (!g_app->initialize(cdoc.document_element()) || !g_app->startInterfaces()) {
    emit("{\"e\":\"weird\",\"w\":\"initialize failed\"}");
    return 1;
  }
  static Tee tee;
  tee.next = g_app->exec()->getExecListener();
  g_app->exec()->setExecListener(&tee);
  InterfaceManager *m = g_app->manager();

  for (auto const &t : ops) {
    std::string const &op = t[0];
    if (op == "start")          // what the world is like to begin with
      g_env[t[1]] = parseVal(t[2]);
    else if (op == "plan") {
      pugi::xml_document *d = new pugi::xml_document;
      d->load_string(unpct(t[1]).c_str());
      try { m->handleAddPlan(d->document_element()); }
      catch (std::exception const &e) {
        emit("{\"e\":\"weird\",\"w\":" + jstr(std::string("plan refused: ") + e.what()) + "}");
        return 0;
      }
    }
    else if (op == "env") {
      Value v = parseVal(t[2]);
      g_env[t[1]] = v;
      in("env", jstr(t[1]) + "," + jval(v));
      m->handleValueChange(State(t[1]), v);
    }
    else if (op == "time") {
      Real now = atoi(t[1].c_str()) / SCALE;
      g_env["time"] = Value(now);
      in("time", t[1]);
      m->handleValueChange(State::timeState(), Value(now));
    }
    else if (op == "ack" || op == "ret") {
      if (g_pending.empty())
        continue;
      Pending p = g_pending[g_pending.size() - 1 - atoi(t[1].c_str()) % g_pending.size()];
      std::string nm = p.c->getName();
      if (p.aborting) {
        in("aack", jstr(nm));
        forget(p.c);
        m->handleCommandAbortAck(p.c, true);
      }
      else if (op == "ret") {
        Value v = parseVal(t[2]);
        if (nm[0] == 'v')       // a command without a result
          continue;
        if (nm[0] == 'b') {     // with a Boolean one
          Integer i;
          v.getValue(i);
          v = Value((Boolean) (i % 2 != 0));
        }
        in("ret", jstr(nm) + "," + jval(v));
        m->handleCommandReturn(p.c, v);
      }
      else {
        std::string const &h = t[2];
        in("ack", jstr(nm) + "," + jstr(h));
        // an ordinary command is over with any answer
        if (nm[1] == 'a' || (h != "COMMAND_ACCEPTED" && h != "COMMAND_RCVD_BY_SYSTEM" && h != "COMMAND_SENT_TO_SYSTEM"))
          forget(p.c);
        m->handleCommandAck(p.c, parseCommandHandle(h));
      }
    }
    else if (op == "uack") {
      if (g_updates.empty())
        continue;
      size_t i = atoi(t[1].c_str()) % g_updates.size();
      Update *u = g_updates[i];
      g_updates.erase(g_updates.begin() + i);
      in("uack", jstr(updName(u)));
      m->handleUpdateAck(u, true);
    }
    else if (op == "idle") {
      g_app->manager()->processQueue();
      int n = 0;
      g_batches = 0;
      do
        g_app->step();
      while (g_app->exec()->needsStep() && n++ < 600);
      emit(g_app->exec()->needsStep() ? "{\"e\":\"runaway\"}" : "{\"e\":\"idle\"}");
    }
  }
  return 0;
}

int main(int argc, char **argv)
{
  PlanError::doThrowExceptions();
  if (argc < 3)
    return 2;
  std::ifstream in(argv[1]);
  std::string outdir = argv[2];
  int jobs = argc > 3 ? atoi(argv[3]) : 8;
  std::string line;
  std::vector<std::vector<std::string>> ops;
  std::string id;
  int running = 0;
  std::map<pid_t, std::string> pids;
  auto reap = [&]() {
    int stat;
    pid_t p = wait(&stat);
    if (p <= 0) return;
    --running;
    std::string f = outdir + "/" + pids[p] + ".log";
    pids.erase(p);
    if (!WIFEXITED(stat) || WEXITSTATUS(stat) != 0) {
      std::ofstream o(f, std::ios::app);
      bool empty = o.tellp() == std::streampos(0);
      o << (empty ? "" : ",") << "{\"e\":\"crash\",\"w\":\""
        << (WIFSIGNALED(stat) ? "signal " : "exit ")
        << (WIFSIGNALED(stat) ? WTERMSIG(stat) : WEXITSTATUS(stat)) << "\"}";
    }
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::vector<std::string> t;
    std::string w;
    while (is >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "BEGIN") { id = t[1]; ops.clear(); }
    else if (t[0] == "END") {
      while (running >= jobs) reap();
      std::string f = outdir + "/" + id + ".log";
      pid_t p = fork();
      if (p == 0) {
        alarm(20);
        int n = open("/dev/null", O_WRONLY);
        if (!getenv("DRIVER_VERBOSE")) { dup2(n, 1); dup2(n, 2); }
        g_fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        int rc = 1;
        try { rc = child(ops); }
        catch (PlanError const &e) {
          emit("{\"e\":\"planerror\",\"w\":" + jstr(e.what()) + "}");
          rc = 0;
        }
        catch (std::exception const &e) {
          emit("{\"e\":\"exception\",\"w\":" + jstr(e.what()) + "}");
          rc = 0;
        }
        _exit(rc);
      }
      pids[p] = id;
      ++running;
    }
    else ops.push_back(t);
  }
  while (running > 0) reap();
  return 0;
}
