// Scenario driver: runs scripted scenarios against the real executive, one
// forked process each, and records everything observable as JSON.
//
// usage: driver SCENARIOS OUT [jobs]

#include "common.hh"
#include "ExecListenerFactory.hh"

#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>

using namespace PLEXIL;

static std::map<std::string, Value> g_env;      // what a query answers
static std::set<std::string> g_dead;            // query answers nothing at all
static std::vector<std::string> g_lk;           // queries since the last record
static std::ostringstream g_log;                // JSON list of records
static bool g_first = true;
static int g_fd = -1;
static bool g_inStep = false;
static int g_batches = 0;
static int g_steps = 0;
static std::vector<std::string> g_hub;          // what listeners were told

struct Thr { bool set; std::string hi, lo; };
static std::map<std::string, Thr> g_thr;

static void emit(std::string const &rec)
{
  std::string s = (g_first ? "" : ",") + rec;
  g_first = false;
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(g_fd, s.data() + off, s.size() - off);
    if (n <= 0) _exit(3);
    off += n;
  }
}

static std::string takeLk()
{
  std::string r = "[";
  for (size_t i = 0; i < g_lk.size(); ++i)
    r += (i ? "," : "") + g_lk[i];
  g_lk.clear();
  return r + "]";
}

static std::string joinv(std::vector<std::string> const &v)
{
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + v[i];
  return r + "]";
}

//
// Plans
//

struct RootInfo { std::string name; int base; };
static std::map<std::string, int> g_rootBase;
static int g_nnodes = 0;
static std::map<Node const *, int> g_nodeIdx;
static std::map<int, NodeImpl *> g_nodes;           // live nodes
static std::map<Node const *, std::vector<int>> g_rootNodes;
struct VarInfo { int node; std::string name; };
static std::vector<VarInfo> g_vars;                 // 0-based, id = index+1
static std::map<Expression const *, int> g_varIdx;  // base expression -> id
static std::map<Command *, int> g_cmdIdx;
static std::map<Update *, int> g_updIdx;
static std::map<int, char> g_retType;

static ExecApplication *g_app = nullptr;

static void number(NodeImpl *n, int &idx, Node const *root)
{
  int me = idx++;
  g_nodeIdx[n] = me;
  g_nodes[me] = n;
  g_rootNodes[root].push_back(me);
  if (CommandNode *c = dynamic_cast<CommandNode *>(n))
    g_cmdIdx[static_cast<Command *>(c->getCommand())] = me;
  if (UpdateNode *u = dynamic_cast<UpdateNode *>(n))
    g_updIdx[static_cast<Update *>(u->getUpdate())] = me;
  for (size_t i = 0; i < g_vars.size(); ++i)
    if (g_vars[i].node == me) {
      Expression *e = n->findLocalVariable(g_vars[i].name.c_str());
      if (e)
        g_varIdx[e->getBaseExpression()] = i + 1;
    }
  for (NodeImplPtr &c : n->getChildren())
    number(c.get(), idx, root);
}

static void scan()
{
  for (NodePtr const &p : g_app->exec()->getPlans()) {
    NodeImpl *r = dynamic_cast<NodeImpl *>(p.get());
    if (!r || g_nodeIdx.count(r))
      continue;
    auto it = g_rootBase.find(r->getNodeId());
    if (it == g_rootBase.end()) {
      emit("{\"e\":\"weird\",\"w\":\"unknown root " + r->getNodeId() + "\"}");
      continue;
    }
    int idx = it->second;
    number(r, idx, r);
  }
}

static void dropDeleted()
{
  std::set<Node const *> live;
  for (NodePtr const &p : g_app->exec()->getPlans())
    live.insert(p.get());
  for (auto it = g_rootNodes.begin(); it != g_rootNodes.end(); ) {
    if (live.count(it->first)) { ++it; continue; }
    for (int n : it->second) {
      NodeImpl *np = g_nodes[n];
      for (auto c = g_cmdIdx.begin(); c != g_cmdIdx.end(); )
        if (c->second == n) c = g_cmdIdx.erase(c); else ++c;
      for (auto c = g_updIdx.begin(); c != g_updIdx.end(); )
        if (c->second == n) c = g_updIdx.erase(c); else ++c;
      for (auto v = g_varIdx.begin(); v != g_varIdx.end(); )
        if (g_vars[v->second - 1].node == n) v = g_varIdx.erase(v); else ++v;
      g_nodeIdx.erase(np);
      g_nodes.erase(n);
    }
    it = g_rootNodes.erase(it);
  }
}

static int nodeIdx(Node const *n)
{
  auto it = g_nodeIdx.find(n);
  if (it == g_nodeIdx.end()) {
    scan();
    it = g_nodeIdx.find(n);
  }
  return it == g_nodeIdx.end() ? -1 : it->second;
}

//
// Handlers
//

static std::vector<Command *> g_sent;     // distinct commands ever sent
static std::vector<Command *> g_aborted;
static std::vector<Update *> g_updates;
static std::vector<std::string> g_rcm, g_rab, g_rup, g_ras;

template <class T> static void remember(std::vector<T *> &v, T *x)
{
  auto it = std::find(v.begin(), v.end(), x);
  if (it != v.end())
    v.erase(it);
  v.push_back(x);
}

class LH : public LookupHandler
{
public:
  void lookupNow(const State &state, LookupReceiver *rcvr) override
  {
    std::string key = stateKey(state);
    auto it = g_env.find(key);
    Value v;
    bool dead = g_dead.count(key) != 0;
    if (!dead && it != g_env.end())
      v = it->second;
    if (!g_inStep && key == "[\"time\"]") {
      g_inStep = true;
      emit("{\"e\":\"step\",\"t\":" + jval(v) + ",\"lk\":" + takeLk() + "}");
    }
    else
      g_lk.push_back("{\"k\":" + key + ",\"v\":" + jval(v) + "}");
    if (v.isKnown())
      rcvr->update(v);
    else if (!dead)
      rcvr->setUnknown();
  }
  void setThresholds(const State &state, Real hi, Real lo) override
  {
    g_thr[stateKey(state)] = Thr{true, jval(Value(hi)), jval(Value(lo))};
  }
  void setThresholds(const State &state, Integer hi, Integer lo) override
  {
    g_thr[stateKey(state)] = Thr{true, jval(Value(hi)), jval(Value(lo))};
  }
  void clearThresholds(const State &state) override
  {
    g_thr.erase(stateKey(state));
  }
};

class CH : public CommandHandler
{
public:
  void executeCommand(Command *cmd, AdapterExecInterface *) override
  {
    std::vector<std::string> args;
    for (Value const &v : cmd->getArgValues())
      args.push_back(jval(v));
    g_rcm.push_back("{\"n\":" + std::to_string(g_cmdIdx.count(cmd) ? g_cmdIdx[cmd] : -1)
                    + ",\"nm\":" + jstr(cmd->getName()) + ",\"a\":" + joinv(args) + "}");
    remember(g_sent, cmd);
  }
  void abortCommand(Command *cmd, AdapterExecInterface *) override
  {
    g_rab.push_back(std::to_string(g_cmdIdx.count(cmd) ? g_cmdIdx[cmd] : -1));
    remember(g_aborted, cmd);
  }
};

static void doUpdate(Update *u, AdapterExecInterface *)
{
  std::vector<std::pair<std::string, std::string>> ps;
  for (auto const &p : u->getPairs())
    ps.push_back(std::make_pair(p.first, jval(p.second)));
  std::sort(ps.begin(), ps.end());
  std::vector<std::string> s;
  for (auto &p : ps)
    s.push_back("{\"k\":" + jstr(p.first) + ",\"v\":" + p.second + "}");
  g_rup.push_back("{\"n\":" + std::to_string(g_updIdx.count(u) ? g_updIdx[u] : -1)
                  + ",\"p\":" + joinv(s) + "}");
  remember(g_updates, u);
}

//
// Listener
//

static std::string snapshot()
{
  std::string st = "[", out = "[", fl = "[", hd = "[", ss = "[";
  for (int i = 1; i <= g_nnodes; ++i) {
    std::string c = i > 1 ? "," : "";
    auto it = g_nodes.find(i);
    if (it == g_nodes.end()) {
      st += c + "\"-\""; out += c + "\"-\""; fl += c + "\"-\""; hd += c + "\"-\"";
      ss += c + "[\"u\"]";
      continue;
    }
    NodeImpl *n = it->second;
    st += c + jstr(nodeStateName(n->getState()));
    out += c + jstr(n->getOutcome() == NO_OUTCOME ? "" : outcomeName(n->getOutcome()));
    fl += c + jstr(n->getFailureType() == NO_FAILURE ? "" : failureTypeName(n->getFailureType()));
    std::string h = "";
    if (CommandNode *cn = dynamic_cast<CommandNode *>(n)) {
      CommandHandleValue hv = cn->getCommand()->getCommandHandle();
      h = hv == NO_COMMAND_HANDLE ? "" : commandHandleValueName(hv);
    }
    hd += c + jstr(h);
    ss += c + (n->getState() == INACTIVE_STATE ? std::string("[\"u\"]")
               : jval(Value((Real) n->getCurrentStateStartTime())));
  }
  std::string vl = "[";
  for (size_t i = 0; i < g_vars.size(); ++i) {
    Value v;
    auto it = g_nodes.find(g_vars[i].node);
    if (it != g_nodes.end()) {
      Expression *e = it->second->findLocalVariable(g_vars[i].name.c_str());
      if (e)
        v = e->toValue();
    }
    vl += (i ? "," : "") + jval(v);
  }
  std::string th = "[";
  bool f = true;
  for (auto &p : g_thr) {
    th += std::string(f ? "" : ",") + "{\"k\":" + p.first + ",\"lo\":" + p.second.lo
      + ",\"hi\":" + p.second.hi + "}";
    f = false;
  }
  return "\"st\":" + st + "],\"out\":" + out + "],\"fl\":" + fl + "],\"h\":" + hd + "],\"ss\":" + ss
    + "],\"vl\":" + vl + "],\"th\":" + th + "]";
}

class Tee : public ExecListenerBase
{
public:
  ExecListenerBase *next = nullptr;
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override
  {
    std::vector<std::string> v;
    for (NodeTransition const &t : tr)
      v.push_back("[" + std::to_string(nodeIdx(t.node)) + ","
                  + jstr(nodeStateName(t.oldState)) + "," + jstr(nodeStateName(t.newState)) + "]");
    if (!tr.empty())
      emit("{\"e\":\"b\",\"tr\":" + joinv(v) + ",\"lk\":" + takeLk() + "}");
    if (++g_batches >= 40) {
      // a plan that never comes to rest: nothing more to see
      emit("{\"e\":\"runaway\"}");
      _exit(0);
    }
    if (next) next->notifyOfTransitions(tr);
  }
  void notifyOfAssignment(Expression const *dest, std::string const &name, Value const &value) override
  {
    Expression const *b = const_cast<Expression *>(dest)->getBaseExpression();
    int id = g_varIdx.count(b) ? g_varIdx[b] : -1;
    g_ras.push_back("{\"v\":" + std::to_string(id) + ",\"nm\":" + jstr(name)
                    + ",\"x\":" + jval(value) + "}");
    if (next) next->notifyOfAssignment(dest, name, value);
  }
  void stepComplete(unsigned int cycle) override
  {
    scan();
    std::string rec = ("{\"e\":\"end\",\"as\":" + joinv(g_ras) + ",\"lk\":" + takeLk()
         + ",\"cm\":" + joinv(g_rcm) + ",\"ab\":" + joinv(g_rab) + ",\"up\":" + joinv(g_rup)
         + "," + snapshot());
    g_ras.clear(); g_rcm.clear(); g_rab.clear(); g_rup.clear();
    g_inStep = false;
    g_batches = 0;
    if (next) next->stepComplete(cycle);
    emit(rec + ",\"hn\":" + std::to_string(g_hub.size()) + "}");
  }
};

// A listener in the hub: what a user's listener sees
class Hub : public ExecListener
{
  std::vector<std::string> &m_told;
public:
  Hub() : ExecListener(), m_told(g_hub) {}
  Hub(pugi::xml_node const xml, std::vector<std::string> &told) : ExecListener(xml), m_told(told) {}
  void implementNotifyNodeTransition(NodeTransition const &t) const override
  {
    m_told.push_back("[\"t\"," + std::to_string(nodeIdx(t.node)) + "," + jstr(nodeStateName(t.oldState))
                    + "," + jstr(nodeStateName(t.newState)) + "]");
  }
  void implementNotifyAssignment(Expression const *dest, std::string const &name, Value const &v) const override
  {
    Expression const *b = const_cast<Expression *>(dest)->getBaseExpression();
    int id = g_varIdx.count(b) ? g_varIdx[b] : -1;
    m_told.push_back("[\"a\"," + std::to_string(id) + "," + jstr(name) + "," + jval(v) + "]");
  }
  void implementNotifyAddPlan(pugi::xml_node const plan) const override
  {
    m_told.push_back("[\"p\"]");
  }
  void implementNotifyAddLibrary(pugi::xml_node const plan) const override
  {
    m_told.push_back("[\"l\"]");
  }
};

// Listeners as configured, with their filters
static std::vector<std::vector<std::string> *> g_ears;
class Ear : public Hub
{
  static std::vector<std::string> &fresh()
  {
    g_ears.push_back(new std::vector<std::string>);
    return *g_ears.back();
  }
public:
  Ear(pugi::xml_node const xml) : Hub(xml, fresh()) {}
};

//
// Script
//

static std::vector<std::string> g_ev;

static Value synth(char type, long seed)
{
  if (seed < 0) seed = -seed;
  if (seed % 11 == 7)
    return Value();
  switch (type) {
  case 'b': return Value((Boolean) (seed & 1));
  case 'i': return Value((Integer) (seed % 7 - 2));
  case 'r': return Value((Real) ((seed % 9 - 4) * 0.5));
  case 's': return Value("s" + std::to_string(seed % 3));
  case 'B': { BooleanArray a(3); for (int i = 0; i < 3; ++i) if ((seed >> i) % 3) a.setElement(i, (Boolean) ((seed >> i) & 1)); return Value(a); }
  case 'I': { IntegerArray a(3); for (int i = 0; i < 3; ++i) if ((seed + i) % 4) a.setElement(i, (Integer) ((seed + i) % 5 - 1)); return Value(a); }
  case 'R': { RealArray a(3); for (int i = 0; i < 3; ++i) if ((seed + i) % 4) a.setElement(i, (Real) ((seed + i) % 5) * 0.5); return Value(a); }
  case 'S': { StringArray a(3); for (int i = 0; i < 3; ++i) if ((seed + i) % 4) a.setElement(i, String("s") + std::to_string((seed + i) % 3)); return Value(a); }
  default: return Value((Integer) (seed % 7 - 2));
  }
}

static void runStep()
{
  g_app->step();
  dropDeleted();
  emit("{\"e\":\"ret\",\"need\":" + std::string(g_app->exec()->needsStep() ? "true" : "false")
       + ",\"apf\":" + (g_app->exec()->allPlansFinished() ? "true" : "false")
       + ",\"live\":" + std::to_string(g_rootNodes.size()) + "}");
}

static void applyEvents()
{
  if (g_ev.empty())
    return;
  g_app->manager()->processQueue();
  scan();
  emit("{\"e\":\"ext\",\"ev\":" + joinv(g_ev) + ",\"lk\":" + takeLk()
       + ",\"need\":" + std::string(g_app->exec()->needsStep() ? "true" : "false") + "}");
  g_ev.clear();
}

static State mkState(std::vector<std::string> const &t, size_t from, size_t to)
{
  std::vector<Value> args;
  for (size_t i = from + 1; i < to; ++i)
    args.push_back(parseVal(t[i]));
  return State(unpct(t[from]), args);
}

static int child(std::vector<std::vector<std::string>> const &ops)
{
  std::string config;
  for (auto const &t : ops) {
    if (t[0] == "listener") config += "<Listener ListenerType=\"Ear\">" + (t.size() > 1 ? unpct(t[1]) : "") + "</Listener>";
    if (t[0] == "root") g_rootBase[t[1]] = atoi(t[2].c_str());
    if (t[0] == "nodes") g_nnodes = atoi(t[1].c_str());
    if (t[0] == "var") g_vars.push_back(VarInfo{atoi(t[1].c_str()), t[2]});
    if (t[0] == "rett") g_retType[atoi(t[1].c_str())] = t[2][0];
  }
  pugi::xml_document cdoc;
  cdoc.load_string(("<Interfaces>" + config + "</Interfaces>").c_str());
  g_app = makeExecApplication();
  g_env["[\"time\"]"] = Value((Real) 0.0);
  AdapterConfiguration *cfg = g_app->configuration();
  auto lh = std::make_shared<LH>();
  auto ch = std::make_shared<CH>();
  cfg->setDefaultLookupHandler(lh);
  cfg->setDefaultCommandHandler(ch);
  cfg->registerLookupHandler(lh, "time");
  cfg->registerPlannerUpdateHandler(doUpdate);
  REGISTER_EXEC_LISTENER(Ear, "Ear");
  if (!g_app->initialize(cdoc.document_element())) {
    emit("{\"e\":\"weird\",\"w\":\"initialize failed\"}");
    return 1;
  }
  g_app->listenerHub()->addListener(new Hub());
  for (auto const &t : ops)
    if (t[0] == "resource") {
      std::istringstream is(unpct(t[1]));
      if (!g_app->exec()->getArbiter()->readResourceHierarchy(is))
        emit("{\"e\":\"weird\",\"w\":\"resource file refused\"}");
    }
  if (!g_app->startInterfaces()) {
    emit("{\"e\":\"weird\",\"w\":\"startInterfaces failed\"}");
    return 1;
  }
  static Tee tee;
  tee.next = g_app->exec()->getExecListener();
  g_app->exec()->setExecListener(&tee);
  InterfaceManager *m = g_app->manager();

  for (auto const &t : ops) {
    std::string const &op = t[0];
    if (op == "time") {
      g_env["[\"time\"]"] = parseVal(t[1]);
    }
    else if (op == "lib") {
      pugi::xml_document *d = new pugi::xml_document;
      d->load_string(unpct(t[1]).c_str());
      bool ok = false;
      std::string why;
      try { ok = m->handleAddLibrary(d); }
      catch (std::exception const &e) { why = e.what(); }
      if (!ok)
        emit("{\"e\":\"weird\",\"w\":" + jstr("library refused: " + why) + "}");
      else
        emit("{\"e\":\"lib\"}");
    }
    else if (op == "plan") {
      pugi::xml_document *d = new pugi::xml_document;
      d->load_string(unpct(t[2]).c_str());
      try {
        m->handleAddPlan(d->document_element());
        g_ev.push_back("{\"k\":\"plan\",\"n\":" + t[1] + "}");
      }
      catch (std::exception const &e) {
        emit("{\"e\":\"weird\",\"w\":" + jstr(std::string("plan refused: ") + e.what()) + "}");
      }
    }
    else if (op == "env" || op == "pub") {
      State s = mkState(t, 1, t.size() - 1);
      Value v = parseVal(t.back());
      std::string key = stateKey(s);
      g_env[key] = v;
      if (op == "pub") {
        m->handleValueChange(s, v);
        g_ev.push_back("{\"k\":\"pub\",\"s\":" + key + ",\"v\":" + jval(v) + "}");
      }
    }
    else if (op == "ack" || op == "ret" || op == "aack") {
      std::vector<Command *> &pool = op == "aack" ? g_aborted : g_sent;
      // only commands of plans that still exist
      std::vector<Command *> live;
      for (Command *c : pool)
        if (g_cmdIdx.count(c)) live.push_back(c);
      if (live.empty())
        continue;
      // selector counts back from the most recently sent, or names the node
      Command *c = nullptr;
      if (t[1][0] == '@') {
        for (Command *x : live)
          if (g_cmdIdx[x] == atoi(t[1].c_str() + 1)) c = x;
        if (!c) continue;
      }
      else
        c = live[live.size() - 1 - strtoul(t[1].c_str(), nullptr, 10) % live.size()];
      int n = g_cmdIdx[c];
      if (op == "ack") {
        CommandHandleValue h = parseCommandHandle(t[2]);
        m->handleCommandAck(c, h);
        g_ev.push_back("{\"k\":\"ack\",\"n\":" + std::to_string(n) + ",\"v\":" + jstr(t[2]) + "}");
      }
      else if (op == "ret") {
        char ty = g_retType.count(n) ? g_retType[n] : 'i';
        Value v = t[2][0] == '=' ? parseVal(t[2].substr(1)) : synth(ty, atol(t[2].c_str()));
        m->handleCommandReturn(c, v);
        g_ev.push_back("{\"k\":\"ret\",\"n\":" + std::to_string(n) + ",\"v\":" + jval(v) + "}");
      }
      else {
        bool b = t[2] == "1";
        m->handleCommandAbortAck(c, b);
        g_ev.push_back("{\"k\":\"aack\",\"n\":" + std::to_string(n) + ",\"v\":" + (b ? "true" : "false") + "}");
      }
    }
    else if (op == "uack") {
      std::vector<Update *> live;
      for (Update *u : g_updates)
        if (g_updIdx.count(u)) live.push_back(u);
      if (live.empty())
        continue;
      Update *u = nullptr;
      if (t[1][0] == '@') {
        for (Update *x : live)
          if (g_updIdx[x] == atoi(t[1].c_str() + 1)) u = x;
        if (!u) continue;
      }
      else
        u = live[live.size() - 1 - strtoul(t[1].c_str(), nullptr, 10) % live.size()];
      bool b = t[2] == "1";
      m->handleUpdateAck(u, b);
      g_ev.push_back("{\"k\":\"uack\",\"n\":" + std::to_string(g_updIdx[u]) + ",\"v\":" + (b ? "true" : "false") + "}");
    }
    else if (op == "step") {
      applyEvents();
      runStep();
    }
    else if (op == "idle") {
      applyEvents();
      int n = 0;
      while (g_app->exec()->needsStep() && n++ < 15)
        runStep();
    }
  }
  emit("{\"e\":\"hub\",\"h\":" + joinv(g_hub) + "}");
  for (size_t i = 0; i < g_ears.size(); ++i)
    emit("{\"e\":\"heard\",\"i\":" + std::to_string(i + 1) + ",\"h\":" + joinv(*g_ears[i]) + "}");
  return 0;
}

int main(int argc, char **argv)
{
  PlanError::doThrowExceptions();
  if (argc < 3)
    return 2;
  std::ifstream in(argv[1]);
  std::string outdir = argv[2];
  int jobs = argc > 3 ? atoi(argv[3]) : 8;
  std::string line;
  std::vector<std::vector<std::string>> ops;
  std::string id;
  int running = 0;
  std::map<pid_t, std::string> pids;
  auto reap = [&]() {
    int stat;
    pid_t p = wait(&stat);
    if (p <= 0) return;
    --running;
    std::string f = outdir + "/" + pids[p] + ".log";
    pids.erase(p);
    if (!WIFEXITED(stat) || WEXITSTATUS(stat) != 0) {
      std::ofstream o(f, std::ios::app);
      bool empty = o.tellp() == std::streampos(0);
      o << (empty ? "" : ",") << "{\"e\":\"crash\",\"w\":\""
        << (WIFSIGNALED(stat) ? "signal " : "exit ")
        << (WIFSIGNALED(stat) ? WTERMSIG(stat) : WEXITSTATUS(stat)) << "\"}";
    }
  };
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::vector<std::string> t;
    std::string w;
    while (is >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "BEGIN") { id = t[1]; ops.clear(); }
    else if (t[0] == "END") {
      while (running >= jobs) reap();
      std::string f = outdir + "/" + id + ".log";
      pid_t p = fork();
      if (p == 0) {
        alarm(20);
        int n = open("/dev/null", O_WRONLY);
        if (!getenv("DRIVER_VERBOSE")) { dup2(n, 1); dup2(n, 2); }
        g_fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        int rc = 1;
        try { rc = child(ops); }
        catch (PlanError const &e) {
          emit("{\"e\":\"planerror\",\"w\":" + jstr(e.what()) + "}");
          rc = 0;
        }
        catch (std::exception const &e) {
          emit("{\"e\":\"exception\",\"w\":" + jstr(e.what()) + "}");
          rc = 0;
        }
        _exit(rc);
      }
      pids[p] = id;
      ++running;
    }
    else ops.push_back(t);
  }
  while (running > 0) reap();
  return 0;
}
