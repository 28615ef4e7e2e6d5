// Shared by the MailBox harnesses: messages that report their destruction, and a reference mailbox.
#pragma once
#include "ref.hpp"
#include "MailBox.hxx"
struct Msg { uint32_t payload; int id; Msg(uint32_t p, int i) : payload(p), id(i) {} ~Msg(); };
static int destroyed[32]; static int doomed;
static std::vector<int> gone;      // messages numbered from 1000 on
inline Msg::~Msg() { if (id >= 1000 && payload != 0xdeadbeefu && (size_t)(id - 1000) < gone.size()) { gone[id - 1000]++; id = -1; return; } if (id < 0 || id >= 32 || payload == 0xdeadbeefu) { doomed++; return; } destroyed[id]++; id = -1; }
typedef SoDa::MailBox<Msg> Box; typedef Box::Subscription Sub;
struct RefSub { bool live; int n; int q[16]; RefSub() : live(false), n(0) {} void push(int m) { q[n++] = m; } int pop() { if (!n) return -1; int r = q[0]; for (int i = 1; i < n; i++) q[i - 1] = q[i]; n--; return r; } };
