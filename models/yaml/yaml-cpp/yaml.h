// Stand-in for yaml-cpp (a binary library without source here): the document is supplied by the harness.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <utility>
#include <cstddef>
namespace YAML {
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
class Exception : public std::runtime_error { public: std::string msg; Exception(const std::string &m) : std::runtime_error("yaml-cpp: " + m), msg(m) {} };
class BadFile : public Exception { public: BadFile(const std::string &f) : Exception("bad file: " + f) {} };
class ParserException : public Exception { public: ParserException(const std::string &m) : Exception(m) {} };
class RepresentationException : public Exception { public: RepresentationException(const std::string &m) : Exception(m) {} };
class InvalidNode : public RepresentationException { public: InvalidNode() : RepresentationException("invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa") {} };
class BadConversion : public RepresentationException { public: BadConversion() : RepresentationException("bad conversion") {} };
template <class T> struct TypedBad : BadConversion {};
class Node;
namespace stub { struct Data; Node &document(); bool &missing(); }
class const_iterator_value;
class const_iterator;
typedef const_iterator iterator;
class Node {
public:
  std::shared_ptr<stub::Data> d; bool zombie;
  Node(); Node(NodeType::value t); Node(const std::string &s); Node(std::nullptr_t) : zombie(true) {}
  NodeType::value Type() const; bool IsDefined() const { return !zombie; } bool IsNull() const { return Type() == NodeType::Null; } bool IsScalar() const { return Type() == NodeType::Scalar; } bool IsSequence() const { return Type() == NodeType::Sequence; } bool IsMap() const { return Type() == NodeType::Map; }
  explicit operator bool() const { return IsDefined(); } bool operator!() const { return !IsDefined(); }
  template <class T> T as() const; const std::string &Scalar() const; std::size_t size() const;
  const_iterator begin() const; const_iterator end() const;
  const Node operator[](const std::string &k) const; const Node operator[](const char *k) const; const Node operator[](std::size_t i) const; const Node operator[](int i) const { return (*this)[(std::size_t)i]; }
  bool is(const Node &o) const { return d == o.d; }
  void push_back(const Node &n); void add(const Node &k, const Node &v);
};
namespace stub { struct Data { NodeType::value t; std::string s; std::vector<Node> seq; std::vector<std::pair<Node, Node>> map; }; }
class const_iterator_value : public Node, public std::pair<Node, Node> { public: const_iterator_value(const Node &n) : Node(n), std::pair<Node, Node>(Node(nullptr), Node(nullptr)) {} const_iterator_value(const Node &k, const Node &v) : Node(nullptr), std::pair<Node, Node>(k, v) {} };
class const_iterator { public: typedef std::forward_iterator_tag iterator_category; typedef const_iterator_value value_type; typedef std::ptrdiff_t difference_type; typedef const_iterator_value *pointer; typedef const_iterator_value reference;
  std::shared_ptr<stub::Data> d; std::size_t i; const_iterator() : i(0) {} const_iterator(const std::shared_ptr<stub::Data> &d, std::size_t i) : d(d), i(i) {}
  const_iterator_value operator*() const { return d->t == NodeType::Map ? const_iterator_value(d->map[i].first, d->map[i].second) : const_iterator_value(d->seq[i]); }
  struct proxy { const_iterator_value v; const_iterator_value *operator->() { return &v; } }; proxy operator->() const { return proxy{**this}; }
  const_iterator &operator++() { i++; return *this; } const_iterator operator++(int) { const_iterator r = *this; i++; return r; } bool operator==(const const_iterator &o) const { return i == o.i; } bool operator!=(const const_iterator &o) const { return i != o.i; } };
inline Node::Node() : d(std::make_shared<stub::Data>()), zombie(false) { d->t = NodeType::Null; }
inline Node::Node(NodeType::value t) : d(std::make_shared<stub::Data>()), zombie(false) { d->t = t; }
inline Node::Node(const std::string &s) : d(std::make_shared<stub::Data>()), zombie(false) { d->t = NodeType::Scalar; d->s = s; }
inline NodeType::value Node::Type() const { if (zombie) throw InvalidNode(); return d->t; }
inline const std::string &Node::Scalar() const { static const std::string none; if (zombie) throw InvalidNode(); return d->t == NodeType::Scalar ? d->s : none; }
inline std::size_t Node::size() const { if (zombie) throw InvalidNode(); return d->t == NodeType::Map ? d->map.size() : d->seq.size(); }
inline const_iterator Node::begin() const { if (zombie) return const_iterator(); return const_iterator(d, 0); }
inline const_iterator Node::end() const { if (zombie) return const_iterator(); return const_iterator(d, size()); }
inline const Node Node::operator[](const std::string &k) const { if (zombie) throw InvalidNode(); for (auto &p : d->map) if (p.first.d->t == NodeType::Scalar && p.first.d->s == k) return p.second; return Node(nullptr); }
inline const Node Node::operator[](const char *k) const { return (*this)[std::string(k)]; }
inline const Node Node::operator[](std::size_t i) const { if (zombie) throw InvalidNode(); return d->t == NodeType::Sequence && i < d->seq.size() ? d->seq[i] : Node(nullptr); }
inline void Node::push_back(const Node &n) { d->t = NodeType::Sequence; d->seq.push_back(n); }
inline void Node::add(const Node &k, const Node &v) { d->t = NodeType::Map; d->map.push_back(std::make_pair(k, v)); }
template <> inline std::string Node::as<std::string>() const { if (zombie) throw InvalidNode(); if (d->t == NodeType::Null) return "null"; if (d->t != NodeType::Scalar) throw BadConversion(); return d->s; }
namespace stub { inline Node &document() { static Node *n = new Node(); return *n; } inline bool &missing() { static bool m = false; return m; } }
inline Node LoadFile(const std::string &f) { if (stub::missing()) throw BadFile(f); return stub::document(); }
}
