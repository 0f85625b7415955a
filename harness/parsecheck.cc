// Loads plan documents, one process for each case, and reports what became of
// each: loaded (and able to run), refused with an error, or worse.
//
// Input:  BEGIN id / type <lookup> <type> / lib <document> / plan <document> / END
// Output: one file per case, a JSON object:
//   res    ok | refused | unlisted | crash <n>
//   why    the message
//   after  what became of a plain plan loaded afterwards: ok, or what went wrong
#include "common.hh"

#include <algorithm>
#include <fcntl.h>
#include <sys/wait.h>

using namespace PLEXIL;

static ExecApplication *g_app = nullptr;
static std::vector<Command *> g_sent;
static std::vector<Update *> g_upd;
static double g_time = 0;
static std::map<std::string, std::string> g_types;

class LH : public LookupHandler
{
public:
  void lookupNow(const State &state, LookupReceiver *rcvr) override
  {
    // a value of the type the plan declares, if it does
    auto it = g_types.find(state.name());
    int k = (int) g_time;
    if (state.name() == "time" && it != g_types.end() && it->second == "Real") {
      rcvr->update((Real) g_time);
      return;
    }
    if (it == g_types.end() || k % 5 == 4) { rcvr->setUnknown(); return; }
    std::string const &t = it->second;
    if (t == "Boolean") rcvr->update((Boolean) (k % 2 == 0));
    else if (t == "Integer") rcvr->update((Integer) (k % 3));
    else if (t == "Real") rcvr->update((Real) (0.5 * (k % 4)));
    else if (t == "String") rcvr->update(String("a"));
    else if (t == "BooleanArray") { BooleanArray a(3); for (int i = 0; i < 3; ++i) a.setElement(i, true); rcvr->update(a); }
    else if (t == "IntegerArray") { IntegerArray a(3); for (int i = 0; i < 3; ++i) a.setElement(i, (Integer) i); rcvr->update(a); }
    else if (t == "RealArray") { RealArray a(3); for (int i = 0; i < 3; ++i) a.setElement(i, (Real) i); rcvr->update(a); }
    else if (t == "StringArray") { StringArray a(3); for (int i = 0; i < 3; ++i) a.setElement(i, String("a")); rcvr->update(a); }
    else rcvr->setUnknown();
  }
};

class CH : public CommandHandler
{
public:
  void executeCommand(Command *cmd, AdapterExecInterface *) override { g_sent.push_back(cmd); }
  void abortCommand(Command *cmd, AdapterExecInterface *i) override
  {
    g_sent.erase(std::remove(g_sent.begin(), g_sent.end(), cmd), g_sent.end());
    i->handleCommandAbortAck(cmd, true);
  }
};

static void doUpdate(Update *u, AdapterExecInterface *) { g_upd.push_back(u); }

static void settle()
{
  for (int n = 0; n < 30 && g_app->exec()->needsStep(); ++n)
    g_app->step();
}

static void runAWhile(int rounds)
{
  InterfaceManager *m = g_app->manager();
  for (int k = 0; k < rounds; ++k) {
    g_time += 1;
    m->processQueue();
    settle();
    bool any = false;
    std::vector<Command *> s;
    std::vector<Update *> u;
    s.swap(g_sent);
    u.swap(g_upd);
    for (Command *c : s) { m->handleCommandAck(c, COMMAND_SUCCESS); any = true; }
    for (Update *x : u) { m->handleUpdateAck(x, true); any = true; }
    auto it = g_types.find("time");
    if (it != g_types.end() && it->second == "Real")
      m->handleValueChange(State("time"), Value((Real) g_time));
    if (!any && k > 2)
      break;
  }
}

static char const *PLAIN =
  "<PlexilPlan><GlobalDeclarations>"
  "<CommandDeclaration><Name>plain</Name><Parameter><Name>x</Name><Type>Integer</Type></Parameter></CommandDeclaration>"
  "<DeclareMutex><Name>m0</Name></DeclareMutex></GlobalDeclarations>"
  "<Node NodeType=\"NodeList\"><NodeId>plain</NodeId><VariableDeclarations><DeclareVariable><Name>v0</Name><Type>Integer</Type>"
  "</DeclareVariable></VariableDeclarations><NodeBody><NodeList>"
  "<Node NodeType=\"Assignment\"><NodeId>n0</NodeId><UsingMutex><Name>m0</Name></UsingMutex><StartCondition><IsKnown>"
  "<LookupNow><Name><StringValue>ip</StringValue></Name></LookupNow></IsKnown></StartCondition>"
  "<NodeBody><Assignment><IntegerVariable>v0</IntegerVariable><NumericRHS><IntegerValue>3</IntegerValue></NumericRHS></Assignment></NodeBody></Node>"
  "<Node NodeType=\"Command\"><NodeId>n1</NodeId><StartCondition><Finished><NodeRef dir=\"sibling\">n0</NodeRef></Finished></StartCondition>"
  "<NodeBody><Command><Name><StringValue>plain</StringValue></Name><Arguments><IntegerVariable>v0</IntegerVariable></Arguments></Command></NodeBody></Node>"
  "</NodeList></NodeBody></Node></PlexilPlan>";

static std::string plain()
{
  g_types["ip"] = "Integer";
  g_time = 0;
  InterfaceManager *m = g_app->manager();
  pugi::xml_document *d = new pugi::xml_document;
  d->load_string(PLAIN);
  try { m->handleAddPlan(d->document_element()); }
  catch (std::exception const &e) { return std::string("refused: ") + e.what(); }
  m->processQueue();
  if (g_app->exec()->getPlans().size() != 1)
    return "there is another plan in the executive";
  NodeImpl *r = dynamic_cast<NodeImpl *>(g_app->exec()->getPlans().front().get());
  settle();
  if (g_sent.size() != 1)
    return "its command was not sent";
  if (g_sent[0]->getArgValues().size() != 1)
    return "its command has other arguments";
  std::string st = nodeStateName(r->getState());
  if (st != "EXECUTING")
    return "it was " + st + " while its command was out";
  m->handleCommandAck(g_sent[0], COMMAND_SUCCESS);
  m->processQueue();
  settle();
  if (!g_app->exec()->allPlansFinished())
    return "it did not finish";
  return "ok";
}

static std::string g_res, g_why, g_after;
static std::string g_out;
static int g_batches = 0;

static void write()
{
  std::ofstream o(g_out);
  o << "{\"res\":" << jstr(g_res) << ",\"why\":" << jstr(g_why) << ",\"after\":" << jstr(g_after) << "}";
}

// Ends the process when a plan does not come to rest within a step
class Watch : public ExecListenerBase
{
public:
  ExecListenerBase *next = nullptr;
  void notifyOfTransitions(std::vector<NodeTransition> const &tr) override
  {
    if (++g_batches >= 60) {
      g_res = "ok";
      g_why = "does not come to rest";
      write();
      _exit(0);
    }
    if (next) next->notifyOfTransitions(tr);
  }
  void notifyOfAssignment(Expression const *dest, std::string const &name, Value const &value) override
  { if (next) next->notifyOfAssignment(dest, name, value); }
  void stepComplete(unsigned int cycle) override
  { g_batches = 0; if (next) next->stepComplete(cycle); }
};

static int child(std::vector<std::vector<std::string>> const &ops)
{
  pugi::xml_document cdoc;
  cdoc.load_string("<Interfaces></Interfaces>");
  g_app = makeExecApplication();
  AdapterConfiguration *cfg = g_app->configuration();
  auto lh = std::make_shared<LH>();
  auto ch = std::make_shared<CH>();
  cfg->setDefaultLookupHandler(lh);
  cfg->setDefaultCommandHandler(ch);
  cfg->registerLookupHandler(lh, "time");
  cfg->registerPlannerUpdateHandler(doUpdate);
  if (!g_app->initialize(cdoc.document_element()) || !g_app->startInterfaces())
    return 3;
  InterfaceManager *m = g_app->manager();
  static Watch watch;
  watch.next = g_app->listenerHub();
  g_app->exec()->setExecListener(&watch);
  g_after = "-";
  for (auto const &t : ops) {
    if (t[0] == "type") {
      g_types[unpct(t[1])] = t[2];
      continue;
    }
    pugi::xml_document *d = new pugi::xml_document;
    pugi::xml_parse_result pr = d->load_string(unpct(t[1]).c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
    if (pr.status != pugi::status_ok)
      return 4;
    if (t[0] == "lib") {
      g_res = "crash loading a library";
      write();
      try { m->handleAddLibrary(d); }
      catch (ParserException const &e) { g_why = e.what(); }
    }
    else {
      g_res = "crash loading the plan";
      write();
      try {
        m->handleAddPlan(d->document_element());
        g_res = "ok";
      }
      catch (ParserException const &e) {
        g_res = "refused";
        g_why = e.what();
      }
      catch (PlanError const &e) {
        g_res = "planerror";
        g_why = e.what();
      }
      catch (std::exception const &e) {
        g_res = "unlisted";
        g_why = e.what();
      }
    }
  }
  if (g_res == "ok") {
    std::string k = g_res;
    g_res = "crash running the plan";
    write();
    // A value whose type was not known in advance may turn out to be of another type than wanted
    Error::doThrowExceptions();
    try { runAWhile(12); }
    catch (PlanError const &e) { g_why = std::string("PlanError: ") + e.what(); }
    catch (Error const &e) {
      if (std::string(e.what()).find("getValue") == std::string::npos)
        k = g_res;
      g_why = std::string("Error: ") + e.what();
    }
    g_res = k;
  }
  else if (g_res == "refused" || g_res == "planerror") {
    g_after = "crash";
    write();
    g_after = plain();
  }
  write();
  return 0;
}

int main(int argc, char **argv)
{
  PlanError::doThrowExceptions();
  if (argc < 3)
    return 2;
  std::ifstream in(argv[1]);
  std::string outdir = argv[2], line, id;
  int jobs = argc > 3 ? atoi(argv[3]) : 8, running = 0;
  std::vector<std::vector<std::string>> ops;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::vector<std::string> t;
    std::string w;
    while (is >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "BEGIN") { id = t[1]; ops.clear(); }
    else if (t[0] == "END") {
      while (running >= jobs) { wait(nullptr); --running; }
      if (fork() == 0) {
        alarm(20);
        g_out = outdir + "/" + id + ".json";
        if (!getenv("DRIVER_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); }
        _exit(child(ops));
      }
      ++running;
    }
    else ops.push_back(t);
  }
  while (running > 0) { wait(nullptr); --running; }
  return 0;
}
