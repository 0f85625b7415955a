// Shared by the harnesses: values and states as text, both ways.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH

#include "plexil-config.h"

#include "AdapterConfiguration.hh"
#include "AdapterExecInterface.hh"
#include "ArrayImpl.hh"
#include "Command.hh"
#include "CommandImpl.hh"
#include "CommandHandle.hh"
#include "CommandHandler.hh"
#include "CommandNode.hh"
#include "Error.hh"
#include "ExecApplication.hh"
#include "ExecListener.hh"
#include "ExecListenerBase.hh"
#include "ExecListenerFactory.hh"
#include "ExecListenerHub.hh"
#include "InterfaceManager.hh"
#include "LookupHandler.hh"
#include "LookupReceiver.hh"
#include "NodeConstants.hh"
#include "NodeImpl.hh"
#include "ParserException.hh"
#include "PlanError.hh"
#include "PlexilExec.hh"
#include "ResourceArbiterInterface.hh"
#include "State.hh"
#include "Update.hh"
#include "UpdateImpl.hh"
#include "UpdateNode.hh"
#include "Value.hh"

#include "pugixml.hpp"

#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

// Reals travel as integers in units of 1/SCALE
static const double SCALE = 16.0;

inline std::string jstr(std::string const &s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

inline std::string realText(double d)
{
  double x = d * SCALE;
  if (x == std::floor(x) && std::fabs(x) < 1e9)
    return std::to_string((long) x);
  return "";
}

inline std::string jval(PLEXIL::Value const &v)
{
  using namespace PLEXIL;
  if (!v.isKnown())
    return "[\"u\"]";
  switch (v.valueType()) {
  case BOOLEAN_TYPE: { bool b; v.getValue(b); return b ? "[\"b\",1]" : "[\"b\",0]"; }
  case INTEGER_TYPE: { Integer i; v.getValue(i); return "[\"i\"," + std::to_string(i) + "]"; }
  case DATE_TYPE: case DURATION_TYPE:
  case REAL_TYPE: {
    Real d; v.getValue(d);
    std::string s = realText(d);
    if (s.empty()) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return std::string("[\"x\",\"") + b + "\"]"; }
    return "[\"r\"," + s + "]";
  }
  case STRING_TYPE: { String s; v.getValue(s); return "[\"s\"," + jstr(s) + "]"; }
  case NODE_STATE_TYPE: { NodeState s; v.getValue(s); return "[\"n\"," + jstr(nodeStateName(s)) + "]"; }
  case OUTCOME_TYPE: { NodeOutcome s; v.getValue(s); return "[\"o\"," + jstr(outcomeName(s)) + "]"; }
  case FAILURE_TYPE: { FailureType s; v.getValue(s); return "[\"f\"," + jstr(failureTypeName(s)) + "]"; }
  case COMMAND_HANDLE_TYPE: { CommandHandleValue s; v.getValue(s); return "[\"h\"," + jstr(commandHandleValueName(s)) + "]"; }
  default:
    break;
  }
  if (isArrayType(v.valueType())) {
    Array const *a;
    if (!v.getValuePointer(a))
      return "[\"u\"]";
    std::string r = "[\"a\",[";
    for (size_t i = 0; i < a->size(); ++i)
      r += (i ? "," : "") + jval(a->getElementValue(i));
    return r + "]]";
  }
  return "[\"x\",\"?\"]";
}

inline std::string stateKey(PLEXIL::State const &s)
{
  std::string r = "[" + jstr(s.name());
  for (PLEXIL::Value const &v : s.parameters())
    r += "," + jval(v);
  return r + "]";
}

inline std::string unpct(std::string const &s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() + 0) {
      r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    }
    else r += s[i];
  }
  return r;
}

// u  b:0 i:5 r:24 s:text  Ai:1;u;3
inline PLEXIL::Value parseVal(std::string const &s)
{
  using namespace PLEXIL;
  if (s.empty() || s == "u") return Value();
  if (s[0] == 'A') {
    char ty = s[1];
    std::vector<std::string> parts;
    std::string rest = s.substr(3), cur;
    std::istringstream is(rest);
    while (std::getline(is, cur, ';')) parts.push_back(cur);
    size_t n = parts.size();
    std::vector<Value> vals;
    for (auto &p : parts)
      vals.push_back(p == "u" ? Value() : parseVal(std::string(1, ty) + ":" + p));
    switch (ty) {
    case 'b': { BooleanArray a(n); for (size_t i = 0; i < n; ++i) { bool x; if (vals[i].getValue(x)) a.setElement(i, x); } return Value(a); }
    case 'i': { IntegerArray a(n); for (size_t i = 0; i < n; ++i) { Integer x; if (vals[i].getValue(x)) a.setElement(i, x); } return Value(a); }
    case 'r': { RealArray a(n); for (size_t i = 0; i < n; ++i) { Real x; if (vals[i].getValue(x)) a.setElement(i, x); } return Value(a); }
    case 's': { StringArray a(n); for (size_t i = 0; i < n; ++i) { String x; if (vals[i].getValue(x)) a.setElement(i, x); } return Value(a); }
    }
    return Value();
  }
  std::string r = s.substr(2);
  switch (s[0]) {
  case 'b': return Value((Boolean) (r == "1"));
  case 'i': return Value((Integer) atol(r.c_str()));
  case 'r': return Value((Real) (atol(r.c_str()) / SCALE));
  case 's': return Value(unpct(r));
  }
  return Value();
}

inline PLEXIL::CommandHandleValue parseCommandHandle(std::string const &s)
{
  return PLEXIL::parseCommandHandleValue(s);
}

#endif
