// X04: children and attributes are found by exact name in document order.
// kinds: 0 element, 1 text, 2 comment, 3 unknown, 4 declaration; names and queries are arbitrary texts.
#include "vf.h"
#include "tinyxml.h"
static std::string name(int i) {
  switch (i) {
    case 0: return vf::any<std::string>("n0");
    case 1: return vf::any<std::string>("n1");
    case 2: return vf::any<std::string>("n2");
    default: return vf::any<std::string>("n3");
  }
}
static TiXmlNode* node(int kind, const std::string& v) {
  if (kind == 0) return new TiXmlElement(v);
  if (kind == 1) return new TiXmlText(v);
  if (kind == 2) { TiXmlComment* c = new TiXmlComment(); c->SetValue(v); return c; }
  if (kind == 3) { TiXmlUnknown* c = new TiXmlUnknown(); c->SetValue(v); return c; }
  TiXmlDeclaration* d = new TiXmlDeclaration(); d->SetValue(v); return d;
}
static TiXmlElement* root(int n, int k0, int k1, int k2, TiXmlNode** c) {
  TiXmlElement* r = new TiXmlElement("root");
  if (n > 0) c[0] = r->LinkEndChild(node(k0, name(0)));
  if (n > 1) c[1] = r->LinkEndChild(node(k1, name(1)));
  if (n > 2) c[2] = r->LinkEndChild(node(k2, name(2)));
  return r;
}
static int at(const TiXmlNode* x, int n, TiXmlNode** c) {
  if (!x) return -1;
  for (int i = 0; i < n; i++) if (c[i] == x) return i;
  return -2;
}
static int kind(int i, int k0, int k1, int k2) { return i == 0 ? k0 : i == 1 ? k1 : k2; }
static int scan(int from, int n, int k0, int k1, int k2, bool elements, bool named, const std::string& q) {
  for (int i = from; i < n; i++)
    if (!(elements && kind(i, k0, k1, k2) != 0) && !(named && name(i) != q)) return i;
  return -1;
}
static int back(int from, int n, int k0, int k1, int k2, bool named, const std::string& q) {
  for (int i = from; i >= 0; i--) if (!(named && name(i) != q)) return i;
  return -1;
}
int L_first(int n, int k0, int k1, int k2, int how, const std::string& q) {
  TiXmlNode* c[3] = {0, 0, 0};
  TiXmlElement* r = root(n, k0, k1, k2, c);
  switch (how) {
    case 0: return at(r->FirstChildElement(q.c_str()), n, c);
    case 1: return at(r->FirstChildElement(q), n, c);
    case 2: return at(r->FirstChildElement(), n, c);
    case 3: return at(r->FirstChild(q.c_str()), n, c);
    case 4: return at(r->FirstChild(q), n, c);
    default: return at(r->FirstChild(), n, c);
  }
}
int R_first(int n, int k0, int k1, int k2, int how, const std::string& q) {
  return scan(0, n, k0, k1, k2, how < 3, how != 2 && how != 5, q);
}
int L_next(int n, int k0, int k1, int k2, int from, int how, const std::string& q) {
  TiXmlNode* c[3] = {0, 0, 0};
  TiXmlElement* r = root(n, k0, k1, k2, c);
  const TiXmlNode* p = c[from];
  switch (how) {
    case 0: return at(p->NextSiblingElement(q.c_str()), n, c);
    case 1: return at(p->NextSiblingElement(q), n, c);
    case 2: return at(p->NextSiblingElement(), n, c);
    case 3: return at(p->NextSibling(q.c_str()), n, c);
    case 4: return at(r->IterateChildren(q, p), n, c);
    default: return at(r->IterateChildren(p), n, c);
  }
}
int R_next(int n, int k0, int k1, int k2, int from, int how, const std::string& q) {
  return scan(from + 1, n, k0, k1, k2, how < 3, how != 2 && how != 5, q);
}
int L_last(int n, int k0, int k1, int k2, int how, const std::string& q) {
  TiXmlNode* c[3] = {0, 0, 0};
  TiXmlElement* r = root(n, k0, k1, k2, c);
  return how ? at(r->LastChild(q), n, c) : at(r->LastChild(), n, c);
}
int R_last(int n, int k0, int k1, int k2, int how, const std::string& q) { return back(n - 1, n, k0, k1, k2, how, q); }
int L_previous(int n, int k0, int k1, int k2, int from, int how, const std::string& q) {
  TiXmlNode* c[3] = {0, 0, 0};
  root(n, k0, k1, k2, c);
  return how ? at(c[from]->PreviousSibling(q), n, c) : at(c[from]->PreviousSibling(), n, c);
}
int R_previous(int n, int k0, int k1, int k2, int from, int how, const std::string& q) { return back(from - 1, n, k0, k1, k2, how, q); }
// the root element of a document, the document of a node
int L_document(int n, int k0, int k1, int k2) {
  TiXmlDocument* d = new TiXmlDocument();
  TiXmlNode* c[3] = {0, 0, 0};
  if (n > 0) c[0] = d->LinkEndChild(node(k0, name(0)));
  if (n > 1) c[1] = d->LinkEndChild(node(k1, name(1)));
  if (n > 2) c[2] = d->LinkEndChild(node(k2, name(2)));
  return at(d->RootElement(), n, c);
}
int R_document(int n, int k0, int k1, int k2) { return scan(0, n, k0, k1, k2, true, false, ""); }
bool P_owner(int n, int k0, int k1, int k2) {
  TiXmlNode* c[3] = {0, 0, 0};
  TiXmlElement* r = root(n, k0, k1, k2, c);
  TiXmlDocument* d = new TiXmlDocument();
  d->LinkEndChild(r);
  for (int i = 0; i < n; i++)
    if (c[i]->Parent() != r || c[i]->GetDocument() != d) return false;
  return r->Parent() == d && !r->NoChildren() == (n > 0);
}
// ---------------------------------------------------------------- attributes
static std::string value(int i) {
  switch (i) {
    case 0: return vf::any<std::string>("v0");
    case 1: return vf::any<std::string>("v1");
    default: return vf::any<std::string>("v2");
  }
}
static TiXmlElement* attributed(int n) {
  TiXmlElement* e = new TiXmlElement("root");
  for (int i = 0; i < n; i++) vf::assume(name(i) != "");
  for (int i = 0; i < n; i++) e->SetAttribute(name(i), value(i));
  return e;
}
static std::string shown(const char* s) { return s ? "=" + std::string(s) : std::string(); }
static std::string shown(const std::string* s) { return s ? "=" + *s : std::string(); }
std::string L_attribute(int n, int how, const std::string& q) {
  TiXmlElement* e = attributed(n);
  return how ? shown(e->Attribute(q)) : shown(e->Attribute(q.c_str()));
}
std::string R_attribute(int n, int how, const std::string& q) {
  for (int i = n - 1; i >= 0; i--) if (name(i) == q) return "=" + value(i);
  return "";
}
std::string L_removed(int n, const std::string& gone, const std::string& q) {
  TiXmlElement* e = attributed(n);
  e->RemoveAttribute(gone);
  return shown(e->Attribute(q.c_str()));
}
std::string R_removed(int n, const std::string& gone, const std::string& q) { return gone == q ? std::string() : R_attribute(n, 0, q); }
// attributes in the order first given
std::string L_order(int n, bool backwards) {
  TiXmlElement* e = attributed(n);
  std::string out;
  if (!backwards) for (const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) out += "|" + a->NameTStr() + "=" + a->ValueStr();
  else for (const TiXmlAttribute* a = e->LastAttribute(); a; a = a->Previous()) out = "|" + a->NameTStr() + "=" + a->ValueStr() + out;
  return out;
}
std::string R_order(int n, bool backwards) {
  std::string out;
  for (int i = 0; i < n; i++) {
    bool again = false;
    for (int j = 0; j < i; j++) if (name(j) == name(i)) again = true;
    int last = i;
    for (int j = i + 1; j < n; j++) if (name(j) == name(i)) last = j;
    if (!again) out += "|" + name(i) + "=" + value(last);
  }
  return out;
}
