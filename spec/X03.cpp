// X03: every node and attribute has one owner: the lists stay doubly linked and ordered through any edits, and
// deleting the root releases everything that was allocated exactly once.
#include "vf.h"
#include "tinyxml.h"
namespace vf {
int unreleased();   // allocations that were never released
bool misused();     // an allocation was released twice or touched after its release
}
// kinds: 0 element with an attribute and a text child, 1 text, 2 comment, 3 unknown, 4 declaration
static TiXmlNode* node(int kind, const std::string& v) {
  if (kind == 0) {
    TiXmlElement* e = new TiXmlElement(v);
    e->SetAttribute("key", v + "+");
    e->LinkEndChild(new TiXmlText(v + "."));
    return e;
  }
  if (kind == 1) { TiXmlText* t = new TiXmlText(v); t->SetCDATA(true); return t; }
  if (kind == 2) { TiXmlComment* c = new TiXmlComment(); c->SetValue(v); return c; }
  if (kind == 3) { TiXmlUnknown* c = new TiXmlUnknown(); c->SetValue(v); return c; }
  TiXmlDeclaration* d = new TiXmlDeclaration(v + "1", v + "2", v + "3");
  d->SetValue(v);
  return d;
}
static std::string lone(int kind, const std::string& v) {
  if (kind == 0) return "<" + v + " key=" + v + "+ |'" + v + ".'0>";
  if (kind == 1) return "'" + v + "'1";
  if (kind == 2) return "!" + v;
  if (kind == 3) return "?" + v;
  return "%" + v + v + "1" + v + "2" + v + "3";
}
// everything a node says about itself
static std::string shallow(const TiXmlNode* n) {
  if (const TiXmlElement* e = n->ToElement()) {
    std::string out = "<" + e->ValueStr();
 int k = 0;
    for (const TiXmlAttribute* a = e->FirstAttribute(); a && k < 8; a = a->Next(), k++) out += " " + a->NameTStr() + "=" + a->ValueStr();
    out += " |";
    for (const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling())
      if (const TiXmlText* t = c->ToText()) out += (c->Parent() == n ? "'" : "~") + t->ValueStr() + (t->CDATA() ? "'1" : "'0");
    return out + ">";
  }
  if (const TiXmlText* t = n->ToText()) return "'" + t->ValueStr() + (t->CDATA() ? "'1" : "'0");
  if (n->ToComment()) return "!" + n->ValueStr();
  if (n->ToUnknown()) return "?" + n->ValueStr();
  if (const TiXmlDeclaration* d = n->ToDeclaration()) return "%" + n->ValueStr() + d->Version() + d->Encoding() + d->Standalone();
  return "#";
}
static std::string forward(const TiXmlNode* p) {
  std::string out;
  int k = 0;
  for (const TiXmlNode* c = p->FirstChild(); c && k < 8; c = c->NextSibling(), k++) out += (c->Parent() == p ? "" : "~") + shallow(c);
  return out;
}
static std::string backward(const TiXmlNode* p) {
  std::string out;
  int k = 0;
  for (const TiXmlNode* c = p->LastChild(); c && k < 8; c = c->PreviousSibling(), k++) out = (c->Parent() == p ? "" : "~") + shallow(c) + out;
  return out;
}
static TiXmlNode* child(TiXmlNode* p, int i) {
  TiXmlNode* c = p->FirstChild();
  while (c && i > 0) { c = c->NextSibling(); i--; }
  return c;
}
static TiXmlNode* holder(bool document) {
  if (document) return new TiXmlDocument();
  return new TiXmlElement("p");
}
static int edit(TiXmlNode* p, int op, int i, int kind, const std::string& v, TiXmlNode* other) {
  TiXmlNode* x = 0;
  TiXmlNode* r = 0;
  if (op == 0) return p->LinkEndChild(node(kind, v)) != 0;
  if (op == 1) { x = node(kind, v); r = p->InsertEndChild(*x); }
  if (op == 2) { x = node(kind, v); r = p->InsertBeforeChild(child(p, i), *x); }
  if (op == 3) { x = node(kind, v); r = p->InsertAfterChild(child(p, i), *x); }
  if (op == 4) { x = node(kind, v); r = p->ReplaceChild(child(p, i), *x); }
  if (op == 5) return p->RemoveChild(child(p, i));
  if (op == 6) { p->Clear(); return 1; }
  // refused: a child of another parent, a document as a child
  if (op == 7) { x = node(kind, v); r = p->InsertBeforeChild(other->FirstChild(), *x); }
  if (op == 8) { x = node(kind, v); r = p->InsertAfterChild(other->FirstChild(), *x); }
  if (op == 9) { x = node(kind, v); r = p->ReplaceChild(other->FirstChild(), *x); }
  if (op == 10) return p->RemoveChild(other->FirstChild());
  if (op == 11) return p->LinkEndChild(new TiXmlDocument()) != 0;
  if (op == 12) { x = new TiXmlDocument(); r = p->InsertEndChild(*x); }
  if (op == 13) { x = new TiXmlDocument(); r = p->InsertBeforeChild(child(p, i), *x); }
  if (op == 14) { x = new TiXmlDocument(); r = p->InsertAfterChild(child(p, i), *x); }
  if (op == 15) { x = new TiXmlDocument(); r = p->ReplaceChild(child(p, i), *x); }
  bool fresh = r != x;
  delete x;
  return fresh ? (r != 0) : 2;
}
struct List { std::string e[6]; int n; };
static void put(List& m, int at, const std::string& v) {
  for (int k = m.n; k > at; k--) m.e[k] = m.e[k - 1];
  m.e[at] = v;
  m.n++;
}
static int model(List& m, int op, int i, int kind, const std::string& v) {
  if (op == 0 || op == 1) { put(m, m.n, lone(kind, v)); return 1; }
  if (op == 2 && i < m.n) { put(m, i, lone(kind, v)); return 1; }
  if (op == 3 && i < m.n) { put(m, i + 1, lone(kind, v)); return 1; }
  if (op == 4 && i < m.n) { m.e[i] = lone(kind, v); return 1; }
  if (op == 5 && i < m.n) { for (int k = i; k + 1 < m.n; k++) m.e[k] = m.e[k + 1]; m.n--; return 1; }
  if (op == 6) { m.n = 0; return 1; }
  return 0;
}
static std::string text(int r, const std::string& f, const std::string& b) { return (r == 1 ? "ok " : r == 0 ? "no " : "?? ") + f + " / " + b; }
std::string L_edit(int n, bool document, int op1, int i, int k1, int op2, int j, int k2) {
  TiXmlNode* p = holder(document);
  TiXmlElement* q = new TiXmlElement("q");
  q->LinkEndChild(new TiXmlText("z"));
  if (n > 0) p->LinkEndChild(node(0, "a"));
  if (n > 1) p->LinkEndChild(node(1, "b"));
  if (n > 2) p->LinkEndChild(node(2, "c"));
  std::string out;
  int r = edit(p, op1, i, k1, "x", q);
  out += text(r, forward(p), backward(p));
  if (op2 >= 0) {
    r = edit(p, op2, j, k2, "y", q);
    out += " then " + text(r, forward(p), backward(p));
  }
  out += " other " + forward(q) + backward(q);
  delete p;
  delete q;
  if (vf::unreleased() != 0) out += " unreleased";
  if (vf::misused()) out += " misused";
  return out;
}
std::string R_edit(int n, bool document, int op1, int i, int k1, int op2, int j, int k2) {
  List m;
  m.n = 0;
  if (n > 0) put(m, 0, lone(0, "a"));
  if (n > 1) put(m, 1, lone(1, "b"));
  if (n > 2) put(m, 2, lone(2, "c"));
  std::string out, l;
  int r = model(m, op1, i, k1, "x");
  for (int k = 0; k < m.n; k++) l += m.e[k];
  out += text(r, l, l);
  if (op2 >= 0) {
    r = model(m, op2, j, k2, "y");
    l = "";
    for (int k = 0; k < m.n; k++) l += m.e[k];
    out += " then " + text(r, l, l);
  }
  return out + " other 'z'0'z'0";
}
// copies own their parts: releasing either leaves the other whole
std::string L_copy(int n, bool document, int how, bool originalFirst) {
  TiXmlNode* p = holder(document);
  if (n > 0) p->LinkEndChild(node(0, "a"));
  if (n > 1) p->LinkEndChild(node(1, "b"));
  if (n > 2) p->LinkEndChild(node(4, "c"));
  TiXmlNode* x = 0;
  if (how == 0) x = p->Clone();
  else if (document) {
    if (how == 1) x = new TiXmlDocument(*p->ToDocument());
    else { TiXmlDocument* d = new TiXmlDocument(); d->LinkEndChild(node(3, "o")); *d = *p->ToDocument(); x = d; }
  } else {
    p->ToElement()->SetAttribute("m", "1");
    if (how == 1) x = new TiXmlElement(*p->ToElement());
    else {
      TiXmlElement* e = new TiXmlElement("o");
      e->SetAttribute("m", "0");
      e->SetAttribute("gone", "2");
      e->LinkEndChild(node(3, "o"));
      *e = *p->ToElement();
      x = e;
    }
    p->ToElement()->SetAttribute("m", "changed");
  }
  std::string out;
  if (originalFirst) {
    delete p;
    out = (document ? "" : shallow(x)) + forward(x) + backward(x);
    delete x;
  } else {
    out = (document ? "" : shallow(x)) + forward(x) + backward(x);
    delete x;
    out += forward(p) + backward(p);
    delete p;
  }
  if (vf::unreleased() != 0) out += " unreleased";
  if (vf::misused()) out += " misused";
  return out;
}
std::string R_copy(int n, bool document, int how, bool originalFirst) {
  std::string l;
  if (n > 0) l += lone(0, "a");
  if (n > 1) l += lone(1, "b");
  if (n > 2) l += lone(4, "c");
  std::string own = "<p";
  if (how != 0) own += " m=1";
  own += " |";
  if (n > 1) own += "'b'1";
  own += ">";
  return (document ? "" : own) + l + l + (originalFirst ? "" : l + l);
}
// attributes: set, overwrite and remove
static std::string key(int i) { return i == 0 ? "a" : i == 1 ? "b" : i == 2 ? "c" : "d"; }
static std::string attributes(const TiXmlElement* e) {
  std::string f, b;
  int k = 0;
  for (const TiXmlAttribute* a = e->FirstAttribute(); a && k < 8; a = a->Next(), k++) f += a->NameTStr() + "=" + a->ValueStr() + ";";
  k = 0;
  for (const TiXmlAttribute* a = e->LastAttribute(); a && k < 8; a = a->Previous(), k++) b = a->NameTStr() + "=" + a->ValueStr() + ";" + b;
  return f + "/" + b;
}
static void mark(TiXmlElement* e, int op, int i, const std::string& v) {
  if (op == 0) e->SetAttribute(key(i), v);
  if (op == 1) e->SetAttribute(key(i).c_str(), v.c_str());
  if (op == 2) e->RemoveAttribute(key(i));
  if (op == 3) e->RemoveAttribute(key(i).c_str());
}
std::string L_attributes(int n, int op1, int i, int op2, int j) {
  TiXmlElement* e = new TiXmlElement("e");
  for (int k = 0; k < n; k++) e->SetAttribute(key(k), "0");
  mark(e, op1, i, "1");
  std::string out = attributes(e);
  mark(e, op2, j, "2");
  out += attributes(e);
  delete e;
  if (vf::unreleased() != 0) out += " unreleased";
  if (vf::misused()) out += " misused";
  return out;
}
static void remark(List& names, List& values, int op, int i, const std::string& v) {
  int at = -1;
  for (int k = 0; k < names.n; k++) if (names.e[k] == key(i)) at = k;
  if (op < 2) {
    if (at >= 0) values.e[at] = v;
    else { put(names, names.n, key(i)); put(values, values.n, v); }
  } else if (at >= 0) {
    for (int k = at; k + 1 < names.n; k++) { names.e[k] = names.e[k + 1]; values.e[k] = values.e[k + 1]; }
    names.n--;
    values.n--;
  }
}
static std::string listed(const List& names, const List& values) {
  std::string l;
  for (int k = 0; k < names.n; k++) l += names.e[k] + "=" + values.e[k] + ";";
  return l + "/" + l;
}
std::string R_attributes(int n, int op1, int i, int op2, int j) {
  List names, values;
  names.n = values.n = 0;
  for (int k = 0; k < n; k++) { put(names, k, key(k)); put(values, k, "0"); }
  remark(names, values, op1, i, "1");
  std::string out = listed(names, values);
  remark(names, values, op2, j, "2");
  return out + listed(names, values);
}
