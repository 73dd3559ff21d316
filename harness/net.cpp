// Internet addresses, events and blocking sockets over the loopback interface.
#include "h.h"
#include <algorithm>
#include <future>
#include <mutex>
#include <thread>
#include "EventHandler.h"
#include "InternetAddress.h"
#include "NetworkTools.h"
#include "Socket.h"
#include "SocketBase.h"
#include "SocketClient.h"
#include "SocketServer.h"
#include "CryptoSocketException.h"
#include <arpa/inet.h>
#include <fcntl.h>
using namespace vh;
using namespace CEX;
using namespace CEX::Network;
using namespace CEX::Enumeration;
using CEX::Tools::NetworkTools;
typedef std::vector<uint8_t> V;

static V of(const ipv4_address& a) { return { a.a1, a.a2, a.a3, a.a4 }; }
static V of(const ipv6_address& a) { return ipv6_address::ToVector(a); }
static std::string text(int af, const V& v) { char b[80]; return inet_ntop(af, v.data(), b, sizeof b) ? b : "?"; }
static bool parse(int af, const std::string& s, V& v) { v.assign(af == AF_INET ? 4 : 16, 0); return inet_pton(af, s.c_str(), v.data()) == 1; }
static V random4(Rng& r) { V v = r.bytes(4); for (auto& b : v) if (r.chance(30)) b = r.pick(std::vector<uint8_t>{ 0, 1, 9, 10, 99, 100, 127, 255 }); return v; }
static V random6(Rng& r)
{
	V v = r.bytes(16);
	for (int g = 0; g < 8; ++g) { if (r.chance(40)) v[2 * g] = v[2 * g + 1] = 0; else if (r.chance(40)) v[2 * g] = (uint8_t)r.below(16) * r.below(2); }
	if (r.chance(10)) { std::fill(v.begin(), v.end(), 0); v[15] = (uint8_t)r.below(3); }
	if (r.chance(20)) v[0] = r.pick(std::vector<uint8_t>{ 0xff, 0xfe, 0xfd, 0xfc, 0x20 });
	return v;
}
// one of the texts of an address: any letter case, leading zeros kept or not, at most one run of zeros left out
static std::string spell(Rng& r, const V& v)
{
	std::vector<std::pair<int, int>> runs;
	for (int a = 0; a < 8; ++a) for (int b = a + 1; b <= 8; ++b) { bool z = true; for (int g = a; g < b; ++g) z = z && !v[2 * g] && !v[2 * g + 1]; if (z && b - a > 1) runs.push_back({ a, b }); }
	std::pair<int, int> gap(9, 9);
	if (!runs.empty() && r.chance(70)) gap = r.pick(runs);
	bool full = r.chance(40), upper = r.chance(50); std::string s;
	for (int g = 0; g < 8; ++g)
	{
		if (g == gap.first) { s += "::"; g = gap.second - 1; continue; }
		if (!s.empty() && s.back() != ':') s += ':';
		s += strf(upper ? full ? "%04X" : "%X" : full ? "%04x" : "%x", v[2 * g] << 8 | v[2 * g + 1]);
	}
	return s;
}
template <class A> static void copies(Rng& r, const char* id, V (*rnd)(Rng&), std::function<A(const V&)> mk)
{
	V v = rnd(r), w = rnd(r);
	A a = mk(v), b = mk(w);
	std::string k = std::string("address:") + id;
	expect(of(a) == v, k + ":made", "the octets are %s, not %s", hex(of(a)).c_str(), hex(v).c_str());
	A c(a); expect(of(c) == v && of(a) == v, k + ":copied", "copy is %s, of %s", hex(of(c)).c_str(), hex(v).c_str());
	A d; d = b; expect(of(d) == w && of(b) == w, k + ":assigned", "assigned %s, of %s", hex(of(d)).c_str(), hex(w).c_str());
	A e(std::move(c)); expect(of(e) == v, k + ":moved", "moved %s, of %s", hex(of(e)).c_str(), hex(v).c_str());
	A f; f = mk(w); expect(of(f) == w, k + ":move-assigned", "move assignment made %s of %s", hex(of(f)).c_str(), hex(w).c_str());
	f = std::move(e); expect(of(f) == v, k + ":move-assigned", "move assignment made %s of %s", hex(of(f)).c_str(), hex(v).c_str());
	expect((a == b) == (v == w) && a == mk(v), k + ":equal", "equality of %s and %s", hex(v).c_str(), hex(w).c_str());
	V x = v; size_t i = r.below(x.size()); x[i] ^= (uint8_t)(1 << r.below(8));
	expect(!(a == mk(x)), k + ":equal", "%s equals %s", hex(v).c_str(), hex(x).c_str());
	A g; expect(of(g) == V(v.size()), k + ":default", "a default address is %s", hex(of(g)).c_str());
	seen(k, hash(v));
}
static void addresses(Rng& r)
{
	std::function<ipv4_address(const V&)> m4 = [&](const V& v) { V c = v; return r.chance(50) ? ipv4_address(c.data()) : ipv4_address(v[0], v[1], v[2], v[3]); };
	std::function<ipv6_address(const V&)> m6 = [&](const V& v) { V c = v; return r.chance(50) ? ipv6_address(c.data()) : ipv6_address(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]); };
	copies<ipv4_address>(r, "v4", random4, m4);
	copies<ipv6_address>(r, "v6", random6, m6);
	V v = random4(r), p;
	std::string s = ipv4_address::ToString(m4(v));
	expect(s == text(AF_INET, v), "address:v4:text", "%s is written %s", text(AF_INET, v).c_str(), s.c_str());
	expect(of(ipv4_address::FromString(s)) == v, "address:v4:parsed", "%s is read as %s", s.c_str(), hex(of(ipv4_address::FromString(s))).c_str());
	seen("v4 text", hash(v));
	v = random6(r);
	s = ipv6_address::ToString(m6(v));
	expect(parse(AF_INET6, s, p) && p == v, "address:v6:text", "%s is written %s", text(AF_INET6, v).c_str(), s.c_str());
	expect(of(ipv6_address::FromString(s)) == v, "address:v6:round-trip", "%s is read as %s", s.c_str(), hex(of(ipv6_address::FromString(s))).c_str());
	for (int i = 0; i < 4; ++i)
	{
		s = spell(r, v);
		if (!parse(AF_INET6, s, p) || p != v) { fail("address:v6:harness", "%s", s.c_str()); return; }
		std::string t = r.chance(20) ? s + "%eth" + strf("%d", (int)r.below(30)) : s;
		V got = of(ipv6_address::FromString(t));
		expect(got == v, "address:v6:parsed", "%s is read as %s", t.c_str(), hex(got).c_str());
		expect(of(ipv6_address(t)) == v, "address:v6:parsed-ctor", "%s is read as %s", t.c_str(), hex(of(ipv6_address(t))).c_str());
		seen("v6 text", hash((const uint8_t*)t.data(), t.size()));
	}
	// the prefixes that are documented
	static const std::pair<std::pair<int, int>, ipv6_address::prefix_types> P[] = { { { 0xfe, 0x80 }, ipv6_address::prefix_types::link_local }, { { 0xff, 0 }, ipv6_address::prefix_types::multicast }, { { 0x20, 0 }, ipv6_address::prefix_types::global }, { { 0xfc, 0 }, ipv6_address::prefix_types::unique_local }, { { 0xfd, 0 }, ipv6_address::prefix_types::unique_local } };
	for (auto& q : P)
	{
		V w = random6(r); w[0] = (uint8_t)q.first.first; w[1] = (uint8_t)q.first.second;
		ipv6_address a = m6(w);
		expect(a.AddressType() == q.second, "address:v6:type", "%s has type %d", text(AF_INET6, w).c_str(), (int)a.AddressType());
		expect(a.IsRoutable() == (w[0] == 0xff || w[0] == 0x20), "address:v6:routable", "%s: %d", text(AF_INET6, w).c_str(), a.IsRoutable());
	}
	expect(of(ipv4_address::LoopBack()) == V({ 127, 0, 0, 1 }) && of(ipv4_address::Any()) == V(4) && of(ipv6_address::Any()) == V(16), "address:known", "loop-back or any");
	V one(16); one[15] = 1; expect(of(ipv6_address::LoopBack()) == one, "address:known", "loop-back");
	// numeric hosts resolve to themselves
	uint16_t port = (uint16_t)r.range(1, 65535); std::string svc = strf("%u", port);
	v = random4(r); ipv4_info i4 = NetworkTools::GetIPv4Info(text(AF_INET, v), svc);
	expect(of(i4.address) == v && i4.port == port, "resolve:v4", "%s:%u resolves to %s:%u", text(AF_INET, v).c_str(), port, hex(of(i4.address)).c_str(), i4.port);
	v = random6(r); if (text(AF_INET6, v).find('.') == std::string::npos)
	{
		ipv6_info i6 = NetworkTools::GetIPv6Info(text(AF_INET6, v), svc);
		expect(of(i6.address) == v && i6.port == port, "resolve:v6", "%s:%u resolves to %s:%u", text(AF_INET6, v).c_str(), port, hex(of(i6.address)).c_str(), i6.port);
	}
	expect(NetworkTools::PortNameToNumber(svc, "tcp") == port, "resolve:port", "port %u", port);
	std::string e, bad = r.pick(std::vector<std::string>{ strf("%llu", (unsigned long long)(port + 65536ULL * r.range(1, 9))), "no-such-service", "-" + svc, svc + "x" });
	expect(outcome([&] { NetworkTools::PortNameToNumber(bad, "tcp"); }, &e) == Threw, "resolve:bad-port", "port %s: %s", bad.c_str(), e.c_str());
	count("addresses");
}

// ---- events ----------------------------------------------------------------------------------------
typedef event<int, const std::string&> Ev;
static void events(Rng& r)
{
	struct Model { std::vector<std::pair<uint32_t, int>> h; };
	std::vector<std::pair<std::unique_ptr<Ev>, Model>> es;
	es.emplace_back(std::unique_ptr<Ev>(new Ev), Model());
	std::vector<std::pair<int, std::pair<int, std::string>>> calls;
	int next = 0; std::set<uint32_t> ids; std::vector<Ev::handler_type> handlers; std::vector<int> numbers;
	size_t steps = r.range(4, 40);
	for (size_t s = 0; s < steps; ++s)
	{
		auto& ev = es[r.below(es.size())]; Ev& e = *ev.first; auto& h = ev.second.h;
		switch (r.below(11))
		{
		case 0: case 1: case 2:
		{
			int n = next++; auto f = [n, &calls](int a, const std::string& b) { calls.push_back({ n, { a, b } }); };
			uint32_t id;
			if (r.chance(50)) { Ev::handler_type t(f); id = r.chance(50) ? e.add(t) : e += t; handlers.push_back(t); numbers.push_back(n); expect(id == t.id(), "event:id", "another identifier"); }
			else id = r.chance(50) ? e.add(Ev::handler_type::handler_func_type(f)) : e += Ev::handler_type::handler_func_type(f);
			expect(ids.insert(id).second, "event:id", "identifier %u is used twice", id);
			h.push_back({ id, n }); break;
		}
		case 3:
		{
			uint32_t id = h.empty() || r.chance(20) ? (uint32_t)r.next() | 0x80000000u : h[r.below(h.size())].first;
			auto it = std::find_if(h.begin(), h.end(), [&](const std::pair<uint32_t, int>& x) { return x.first == id; });
			expect(e.remove_id(id) == (it != h.end()), "event:remove", "removal of %u said otherwise", id);
			if (it != h.end()) h.erase(it);
			break;
		}
		case 4:
		{
			if (handlers.empty()) break;
			auto t = r.pick(handlers);
			auto it = std::find_if(h.begin(), h.end(), [&](const std::pair<uint32_t, int>& x) { return x.first == t.id(); });
			expect((r.chance(50) ? e.remove(t) : e -= t) == (it != h.end()), "event:remove", "removal of a handler said otherwise");
			if (it != h.end()) h.erase(it);
			break;
		}
		case 5:
		{
			if (es.size() > 4) break;
			Model m = ev.second; std::unique_ptr<Ev> c(r.chance(50) ? new Ev(e) : new Ev); *c = e;
			es.emplace_back(std::move(c), m); break;
		}
		case 6:
		{
			if (es.size() > 4) break;
			Model m = ev.second; ev.second.h.clear();
			std::unique_ptr<Ev> c(new Ev); if (r.chance(50)) c.reset(new Ev(std::move(e))); else *c = std::move(e);
			es.emplace_back(std::move(c), m); break;
		}
		case 7: { auto& o = es[r.below(es.size())]; e = *o.first; Model m = o.second; ev.second = m; break; }
		case 8:
		{
			auto& o = es[r.below(es.size())]; if (&o == &ev) break;
			e = std::move(*o.first); ev.second = o.second; *o.first = Ev(); o.second.h.clear(); break;
		}
		case 9:
		{
			// a handler that is registered already, here or elsewhere
			if (handlers.empty()) break;
			size_t j = r.below(handlers.size()); expect(e.add(handlers[j]) == handlers[j].id(), "event:id", "another identifier"); h.push_back({ handlers[j].id(), numbers[j] }); break;
		}
		default: break;
		}
		// every handler of the event, once each, in the order they were added
		auto& q = es[r.below(es.size())]; int a = (int)r.below(1000); std::string b = strf("%llx", (unsigned long long)r.next());
		calls.clear();
		if (r.chance(30)) q.first->call_async(a, b).get(); else if (r.chance(50)) q.first->call(a, b); else (*q.first)(a, b);
		bool ok = calls.size() == q.second.h.size();
		for (size_t i = 0; ok && i < calls.size(); ++i) ok = calls[i].first == q.second.h[i].second && calls[i].second.first == a && calls[i].second.second == b;
		expect(ok, "event:calls", "%zu handlers, %zu calls, in another order or with other values", q.second.h.size(), calls.size());
		seen("event", mix(calls.size()) ^ r.s);
	}
	// handlers that add and remove while the event is raised: the call in progress keeps to those it started with
	Ev e; int mine = 0, added = 0; uint32_t id = 0;
	id = e.add([&](int, const std::string&) { ++mine; e.remove_id(id); e.add([&](int, const std::string&) { ++added; }); });
	e.add([&](int, const std::string&) { ++mine; });
	e.call(1, "x"); expect(mine == 2 && added == 0, "event:nested", "%d calls, %d of the handler added meanwhile", mine, added);
	e.call(1, "x"); expect(mine == 3 && added == 1, "event:nested", "%d calls, %d of the handler added meanwhile", mine, added);
	count("event histories");
}
static void eventThreads(Rng& r)
{
	Ev e; const int T = (int)r.range(2, 5), N = (int)r.range(20, 120);
	std::atomic<long> fixed(0), passing(0), bad(0);
	e.add([&](int a, const std::string& s) { ++fixed; if (s != std::to_string(a)) ++bad; });
	std::vector<std::thread> t; std::vector<std::vector<uint32_t>> ids(T); std::atomic<long> removed(0), adds(0);
	for (int i = 0; i < T; ++i) t.emplace_back([&, i] {
		for (int j = 0; j < N; ++j)
		{
			uint32_t id = e.add([&](int, const std::string&) { ++passing; }); ids[i].push_back(id); ++adds;
			if (j % 3 == 0) { Ev c(e); c.call(i, std::to_string(i)); --fixed; }
			e.call(j, std::to_string(j));
			if (e.remove_id(id)) ++removed;
		}
	});
	// two events assigned to each other, and each to itself
	Ev e1, e2; std::atomic<int> both(0); e1.add([&](int, const std::string&) { ++both; }); e2.add([&](int, const std::string&) { ++both; });
	std::thread c1([&] { for (int i = 0; i < 200; ++i) { e1 = e2; e1.call(i, ""); } }), c2([&] { for (int i = 0; i < 200; ++i) { e2 = e1; e2 = e2; e2.call(i, ""); } });
	c1.join(); c2.join(); expect(both == 400, "event:threads:assigned", "%d calls of 400", both.load());
	for (auto& x : t) x.join();
	std::set<uint32_t> all; size_t n = 0; for (auto& v : ids) { n += v.size(); all.insert(v.begin(), v.end()); }
	expect(all.size() == n, "event:threads:ids", "%zu identifiers for %zu handlers", all.size(), n);
	// the fixed handler ran once in every call (those of copies were subtracted)
	expect(fixed == (long)T * N && bad == 0 && removed == adds, "event:threads:calls", "%ld calls of %ld, %ld with other values, %ld removed of %ld", fixed.load(), (long)T * N, bad.load(), removed.load(), adds.load());
	expect(passing >= (long)T * N, "event:threads:own", "a thread's own handler was not called: %ld of at least %ld", passing.load(), (long)T * N);
	passing = 0; e.call(1, "1"); expect(passing == 0, "event:threads:gone", "%ld removed handlers were called", passing.load());
	count("concurrent calls", T * N); seen("threads", mix(T * 1000 + N) ^ passing);
}

// ---- sockets ---------------------------------------------------------------------------------------
static uint16_t localPort(Socket& s, V* addr = nullptr)
{
	sockaddr_storage a; unsigned n = sizeof a; memset(&a, 0, n);
	if (::getsockname((int)s.Connection, (sockaddr*)&a, &n)) return 0;
	if (a.ss_family == AF_INET) { auto* x = (sockaddr_in*)&a; if (addr) addr->assign((uint8_t*)&x->sin_addr, (uint8_t*)&x->sin_addr + 4); return ntohs(x->sin_port); }
	auto* x = (sockaddr_in6*)&a; if (addr) addr->assign((uint8_t*)&x->sin6_addr, (uint8_t*)&x->sin6_addr + 16); return ntohs(x->sin6_port);
}
static bool six()
{
	static const bool ok = [] { int s = ::socket(AF_INET6, SOCK_STREAM, 0); if (s < 0) return false; sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr.s6_addr[15] = 1; bool b = ::bind(s, (sockaddr*)&a, sizeof a) == 0; close(s); return b; }();
	return ok;
}
static size_t openFiles() { size_t n = 0; for (int i = 0; i < 300; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
// what one side sends arrives at the other, once, in order, and nothing else
struct Pipe
{
	Socket &a, &b; std::string key; V sent, got;
	void send(Rng& r, SocketClient* via = nullptr)
	{
		V in = r.bytes(r.range(1, r.chance(30) ? 9000 : 200)); size_t n = r.chance(40) ? in.size() : r.range(1, in.size()); std::string e; uint32_t c = 0;
		if (!expect(outcome([&] { c = via ? (r.chance(50) ? via->Send(in, n) : via->Send(in, n, SocketSendFlags::None)) : SocketBase::Send(a, in, n, SocketSendFlags::None); }, &e) == Returned, key + ":send", "threw %s", e.c_str())) return;
		expect(c == n, key + ":sent", "%u bytes sent of %zu", c, n);
		sent.insert(sent.end(), in.begin(), in.begin() + n);
	}
	void receive(Rng& r, bool all, SocketClient* via = nullptr)
	{
		timeval zero = { 0, 0 }, wait = { 20, 0 }; std::string e;
		while (got.size() < sent.size())
		{
			if (!expect(SocketBase::ReceiveReady(b, &wait), key + ":lost", "%zu bytes of %zu arrived", got.size(), sent.size())) return;
			size_t left = sent.size() - got.size(), n = r.chance(20) ? left : r.range(1, left + (r.chance(20) ? 50 : 0)); uint32_t c = 0;
			SocketReceiveFlags f = n <= left && r.chance(30) ? SocketReceiveFlags::WaitAll : SocketReceiveFlags::None;
			V o(n, 0xCC);
			if (r.chance(20))
			{
				uint32_t p = 0; V q(n, 0xCC);
				if (!expect(outcome([&] { p = SocketBase::Receive(b, q, SocketReceiveFlags::Peek); }, &e) == Returned, key + ":peek", "threw %s", e.c_str())) return;
				expect(p > 0 && p <= n && got.size() + p <= sent.size() && std::equal(q.begin(), q.begin() + p, sent.begin() + got.size()), key + ":peek", "looking ahead shows something else");
			}
			if (!expect(outcome([&] { c = via ? via->Receive(o, f) : SocketBase::Receive(b, o, f); }, &e) == Returned, key + ":receive", "threw %s", e.c_str())) return;
			expect(c >= 1 && c <= n, key + ":received", "%u bytes received into %zu", c, n);
			if (f == SocketReceiveFlags::WaitAll) expect(c == n, key + ":wait-all", "%u bytes received of %zu waited for", c, n);
			for (size_t i = c; i < n; ++i) if (o[i] != 0xCC) { fail(key + ":beyond", "bytes beyond those received were written"); break; }
			got.insert(got.end(), o.begin(), o.begin() + std::min<size_t>(c, n));
			if (!all && r.chance(40)) break;
		}
		if (all) expect(!SocketBase::ReceiveReady(b, &zero), key + ":surplus", "more arrived than was sent");
		bool ok = got.size() <= sent.size() && std::equal(got.begin(), got.end(), sent.begin());
		expect(ok, key + ":content", "%zu bytes arrived, %zu were sent; they differ", got.size(), sent.size());
		seen(key, hash(got));
	}
};
static void tcp(Rng& r)
{
	bool v6 = r.chance(40) && six(); std::string k = v6 ? "tcp:v6" : "tcp:v4", e;
	size_t files = openFiles();
	auto af = v6 ? SocketAddressFamilies::IPv6 : SocketAddressFamilies::IPv4;
	Socket l(af, SocketProtocols::TCP, SocketTransports::Stream), c(af, SocketProtocols::TCP, SocketTransports::Stream), t;
	if (!expect(SocketBase::Create(l) && SocketBase::Create(c), k + ":create", "no socket")) return;
	uint8_t n = (uint8_t)r.range(1, 250); ipv4_address own(127, 0, (uint8_t)r.below(200), n); V bound;
	if (!expect(v6 ? SocketBase::Bind(l, ipv6_address::LoopBack(), 0) : SocketBase::Bind(l, own, 0), k + ":bind", "refused")) return;
	uint16_t port = localPort(l, &bound);
	if (r.chance(50))
	{
		// again at the port just found free (unless somebody was quicker)
		::close((int)l.Connection); Socket m(af, SocketProtocols::TCP, SocketTransports::Stream); bool up = SocketBase::Create(m) && (v6 ? SocketBase::Bind(m, ipv6_address::LoopBack(), port) : SocketBase::Bind(m, own, port));
		if (up) { uint16_t got = localPort(m, &bound); expect(got == port, k + ":bound", "bound to port %u, asked for %u", got, port); port = got; count("binds to a chosen port"); }
		else { ::close((int)m.Connection); m = Socket(af, SocketProtocols::TCP, SocketTransports::Stream); if (!expect(SocketBase::Create(m) && (v6 ? SocketBase::Bind(m, ipv6_address::LoopBack(), 0) : SocketBase::Bind(m, own, 0)), k + ":bind", "refused")) return; port = localPort(m, &bound); }
		l = m;
	}
	expect(bound == (v6 ? of(ipv6_address::LoopBack()) : of(own)), k + ":bound", "bound to %s", text(v6 ? AF_INET6 : AF_INET, bound).c_str());
	expect(SocketBase::Listen(l, 5), k + ":listen", "refused");
	if (!v6)
	{
		// nobody listens at another address
		Socket o(af, SocketProtocols::TCP, SocketTransports::Stream); SocketBase::Create(o); ipv4_address other(127, 0, 201, n);
		expect(!SocketBase::Connect(o, other, port) && o.ConnectionStatus != SocketStates::Connected, k + ":elsewhere", "a connection to an address that was not bound succeeds");
		::close((int)o.Connection);
	}
	if (!expect(v6 ? SocketBase::Connect(c, ipv6_address::LoopBack(), port) : SocketBase::Connect(c, own, port), k + ":connect", "refused")) return;
	expect(c.ConnectionStatus == SocketStates::Connected && c.Address == (v6 ? ipv6_address::ToString(ipv6_address::LoopBack()) : ipv4_address::ToString(own)), k + ":connected", "the socket says %s", c.Address.c_str());
	if (!expect(SocketBase::Accept(l, t), k + ":accept", "refused")) return;
	V from; uint16_t fromPort = localPort(c, &from);
	expect(t.ConnectionStatus == SocketStates::Connected && t.Address == text(v6 ? AF_INET6 : AF_INET, from) && t.Port == fromPort && t.AddressFamily == af, k + ":accepted", "the socket says %s:%u; the peer is %s:%u", t.Address.c_str(), t.Port, text(v6 ? AF_INET6 : AF_INET, from).c_str(), fromPort);
	std::string pn, sn;
	if (expect(outcome([&] { pn = NetworkTools::GetPeerName(t); sn = NetworkTools::GetSocketName(t); }, &e) == Returned, k + ":names", "threw %s", e.c_str()))
		expect(pn == text(v6 ? AF_INET6 : AF_INET, from) && sn == text(v6 ? AF_INET6 : AF_INET, bound), k + ":names", "the socket is %s, its peer %s", sn.c_str(), pn.c_str());
	expect(SocketBase::IsConnected(c) && SocketBase::IsConnected(t), k + ":is-connected", "a connection is said not to be one");
	timeval zero = { 0, 0 };
	expect(SocketBase::SendReady(c, &zero) && !SocketBase::ReceiveReady(c, &zero), k + ":ready", "an idle connection is said to have data, or no room");
	Pipe p{ c, t, k + ":there" }, q{ t, c, k + ":back" };
	for (size_t i = 0, m = r.range(1, 6); i < m; ++i) { if (r.chance(70)) p.send(r); if (r.chance(70)) q.send(r); p.receive(r, r.chance(50)); q.receive(r, r.chance(50)); }
	q.receive(r, true);
	p.receive(r, true);
	if (r.chance(40))
	{
		// more than one segment, or the buffers, hold
		V in = r.bytes(r.range(60000, 400000)), o; size_t n = r.chance(50) ? in.size() : r.range(60000, in.size()); uint32_t got = 0;
		std::thread rd([&] { V b(65536); while (o.size() < n) { ssize_t x = ::recv((int)t.Connection, b.data(), b.size(), 0); if (x <= 0) break; o.insert(o.end(), b.begin(), b.begin() + x); } });
		bool fine = outcome([&] { size_t done = 0; V rest = in; while (done < n) { got = SocketBase::Send(c, rest, n - done, SocketSendFlags::None); if (!got || got > n - done) break; done += got; rest.assign(in.begin() + done, in.end()); } got = (uint32_t)done; }, &e) == Returned && got == n;
		if (!expect(fine, k + ":large:sent", "%u bytes sent of %zu (%s)", got, n, e.c_str())) ::shutdown((int)c.Connection, SHUT_RDWR);
		rd.join();
		expect(!fine || (o.size() == n && std::equal(o.begin(), o.end(), in.begin())), k + ":large:content", "%zu bytes arrived of %zu, or others", o.size(), n);
		expect(!SocketBase::ReceiveReady(t, &zero), k + ":large:surplus", "more arrived than was sent");
		count("large sends");
		if (!fine) return;
	}
	// what was sent before the end still arrives, then nothing
	p.send(r);
	if (!expect(outcome([&] { if (r.chance(50)) SocketBase::ShutDown(c, SocketShutdownFlags::Send); else SocketBase::CloseSocket(c); }, &e) == Returned, k + ":close", "threw %s", e.c_str())) return;
	p.receive(r, false);
	while (p.got.size() < p.sent.size() && SocketBase::ReceiveReady(t, &zero)) { V o(4000); uint32_t x = SocketBase::Receive(t, o, SocketReceiveFlags::None); if (!x) break; p.got.insert(p.got.end(), o.begin(), o.begin() + x); }
	expect(p.got == p.sent, k + ":end:content", "%zu bytes of %zu arrived before the end", p.got.size(), p.sent.size());
	V o(10); uint32_t x = 9; timeval wait = { 20, 0 };
	expect(SocketBase::ReceiveReady(t, &wait) && outcome([&] { x = SocketBase::Receive(t, o, SocketReceiveFlags::None); }, &e) == Returned && x == 0, k + ":end", "after the end %u bytes arrive (%s)", x, e.c_str());
	expect(outcome([&] { SocketBase::CloseSocket(t); }, &e) == Returned, k + ":close", "threw %s", e.c_str());
	::close((int)l.Connection);
	expect(openFiles() == files, k + ":descriptors", "%zu descriptors before, %zu after", files, openFiles());
	count("connections");
}
static void udp(Rng& r)
{
	std::string k = "udp", e; size_t files = openFiles();
	auto af = SocketAddressFamilies::IPv4;
	Socket a(af, SocketProtocols::UDP, SocketTransports::Datagram), b(af, SocketProtocols::UDP, SocketTransports::Datagram);
	ipv4_address own(127, 0, 1, (uint8_t)r.range(1, 250));
	if (!expect(SocketBase::Create(a) && SocketBase::Create(b) && SocketBase::Bind(b, own, 0), k + ":create", "no socket")) return;
	V bound; uint16_t port = localPort(b, &bound);
	expect(bound == of(own) && SocketBase::Connect(a, own, port), k + ":connect", "bound to %s", hex(bound).c_str());
	std::vector<V> sent;
	for (size_t i = 0, m = r.range(1, 8); i < m; ++i)
	{
		V in = r.bytes(r.range(1, 2000)); size_t n = r.range(1, in.size()); uint32_t c = 0;
		expect(outcome([&] { c = SocketBase::Send(a, in, n, SocketSendFlags::None); }, &e) == Returned && c == n, k + ":sent", "%u bytes of %zu sent (%s)", c, n, e.c_str());
		sent.push_back(V(in.begin(), in.begin() + n));
	}
	timeval wait = { 20, 0 }, zero = { 0, 0 };
	for (auto& want : sent)
	{
		V o(2500, 0xCC); uint32_t c = 0;
		if (!expect(SocketBase::ReceiveReady(b, &wait) && outcome([&] { c = SocketBase::Receive(b, o, SocketReceiveFlags::None); }, &e) == Returned, k + ":lost", "a datagram did not arrive (%s)", e.c_str())) break;
		expect(c == want.size() && std::equal(want.begin(), want.end(), o.begin()) && std::count(o.begin() + c, o.end(), 0xCC) == (long)(o.size() - c), k + ":content", "%u bytes arrived of a datagram of %zu, or others", c, want.size());
		seen(k, hash(want));
	}
	expect(!SocketBase::ReceiveReady(b, &zero), k + ":surplus", "more arrived than was sent");
	::close((int)a.Connection); ::close((int)b.Connection);
	expect(openFiles() == files, k + ":descriptors", "%zu descriptors before, %zu after", files, openFiles());
	count("datagram exchanges");
}
// whether this machine lets anybody connect over the loopback interface
static bool loopback()
{
	int l = ::socket(AF_INET, SOCK_STREAM, 0), c = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7F00C805); unsigned n = sizeof a;
	bool ok = l >= 0 && c >= 0 && !::bind(l, (sockaddr*)&a, n) && !::listen(l, 1) && !::getsockname(l, (sockaddr*)&a, &n) && !::connect(c, (sockaddr*)&a, sizeof a);
	::close(l); ::close(c); return ok;
}
// a port of the loopback address nobody listens at; kept bound, so that nobody else takes it, when held is asked for
static uint16_t freePort(int* held = nullptr, bool v6 = false)
{
	if (v6)
	{
		int s = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr.s6_addr[15] = 1;
		unsigned n = sizeof a; uint16_t p = 0; if (!::bind(s, (sockaddr*)&a, n) && !::getsockname(s, (sockaddr*)&a, &n)) p = ntohs(a.sin6_port); if (held) *held = s; else close(s); return p;
	}
	int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	unsigned n = sizeof a; uint16_t p = 0; if (!::bind(s, (sockaddr*)&a, n) && !::getsockname(s, (sockaddr*)&a, &n)) p = ntohs(a.sin_port); if (held) *held = s; else close(s); return p;
}
// a server that waits for one connection, and a client
static void pair(Rng& r)
{
	bool v6 = r.chance(50) && six(); std::string k = v6 ? "client:v6" : "client", e, se; auto af = v6 ? SocketAddressFamilies::IPv6 : SocketAddressFamilies::IPv4;
	size_t files = openFiles();
	{
		SocketServer s(af, SocketProtocols::TCP, SocketTransports::Stream); std::atomic<int> accepted(0), errors(0); Socket t; uint16_t port = 0; std::thread th; bool up = false;
		s.OnSocketAccepted += [&](int, Socket& x) { ++accepted; if (x.ConnectionStatus != SocketStates::Connected) ++errors; };
		for (int tries = 0; tries < 20 && !up; ++tries)
		{
			port = freePort(nullptr, v6); std::atomic<int> done(0);
			std::thread c([&] { try { t = v6 ? s.Listen(ipv6_address::LoopBack(), port) : s.Listen(ipv4_address::LoopBack(), port); } catch (CryptoSocketException& x) { se = x.Message(); } done = 1; });
			while (!done && !s.IsListening()) std::this_thread::yield();
			up = !done;
			if (up)
			{
				SocketClient cl(af, SocketProtocols::TCP, SocketTransports::Stream); std::atomic<int> conn(0), off(0); size_t received = 0, sent = 0; int nr = 0, ns = 0; bool nested = false; std::string said;
				cl.OnSocketConnected += [&](int, const std::string& a) { ++conn; said = a; if (a != (v6 ? ipv6_address::ToString(ipv6_address::LoopBack()) : std::string("127.0.0.1"))) nested = true; };
				cl.OnSocketSent += [&](int n) { ++ns; sent += (size_t)n; };
				V told; cl.OnSocketReceived += [&](int, const V& v) { ++nr; received += v.size(); told.insert(told.end(), v.begin(), v.end()); };
				std::string bye; cl.OnSocketDisconnected += [&](int, const std::string& a) { ++off; bye = a; };
				bool byName = r.chance(40); std::string host = v6 ? "::1" : "127.0.0.1", svc = strf("%u", port); bool ok = false;
				bool fine = expect(outcome([&] { ok = byName ? cl.Connect(host, svc) : v6 ? cl.Connect(ipv6_address::LoopBack(), port) : cl.Connect(ipv4_address::LoopBack(), port); }, &e) == Returned && ok, k + ":connect", "%s %s", byName ? "by name" : "by address", e.c_str());
				if (!fine)
				{
					// let the server go
					int q = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
					sockaddr_in6 b; memset(&b, 0, sizeof b); b.sin6_family = AF_INET6; b.sin6_port = htons(port); b.sin6_addr.s6_addr[15] = 1;
					(void)!(v6 ? ::connect(q, (sockaddr*)&b, sizeof b) : ::connect(q, (sockaddr*)&a, sizeof a)); c.join(); ::close(q); return;
				}
				c.join();
				expect(conn == 1 && !nested, k + ":connected-event", "%d events for one connection, to %s", conn.load(), said.c_str());
				expect(accepted == 1 && errors == 0 && t.ConnectionStatus == SocketStates::Connected, k + ":accepted-event", "%d events, status %d", accepted.load(), (int)t.ConnectionStatus);
				Pipe p{ cl.BaseSocket(), t, k + ":there" }, q{ t, cl.BaseSocket(), k + ":back" };
				for (int i = 0; i < 3; ++i) { p.send(r, &cl); p.receive(r, true); q.send(r); q.receive(r, true, &cl); }
				expect(ns == 3 && sent == p.sent.size(), k + ":sent-event", "%d events for %zu bytes, sent %zu in 3 pieces", ns, sent, p.sent.size());
				V in = r.bytes(r.range(1, 500)); SocketBase::Send(t, in, in.size(), SocketSendFlags::None); uint32_t got = 0; size_t all = 0;
				while (all < in.size() && outcome([&] { got = cl.Receive(in.size() - all + (r.chance(50) ? r.below(100) : 0)); }, &e) == Returned && got) all += got;
				expect(all == in.size() && received == all && nr >= 1 && told == in, k + ":received-event", "%zu bytes received, events for %zu, sent %zu", all, received, in.size());
				std::string peer = cl.BaseSocket().Address;
				expect(outcome([&] { cl.ShutDown(); }, &e) == Returned && off == 1 && !peer.empty() && bye.find(peer) != std::string::npos, k + ":shutdown", "%s; %d events: %s", e.c_str(), off.load(), bye.c_str());
				V o(5); uint32_t z = 5; expect(outcome([&] { z = SocketBase::Receive(t, o, SocketReceiveFlags::None); }, &e) == Returned && z == 0, k + ":end", "%u bytes after the end (%s)", z, e.c_str());
				SocketBase::CloseSocket(t);
				count("client and server");
			}
			else c.join();
		}
		expect(up, k + ":listen", "the server does not listen: %s", se.c_str());
	}
	// nobody listens: an event and no descriptor left
	{
		SocketClient cl(af, SocketProtocols::TCP, SocketTransports::Stream); int errors = 0, conn = 0; cl.OnSocketError += [&](SocketExceptions, const std::string&) { ++errors; }; cl.OnSocketConnected += [&](int, const std::string&) { ++conn; };
		bool ok = true; int held = -1; uint16_t port = freePort(&held, v6);
		expect(outcome([&] { ok = v6 ? cl.Connect(ipv6_address::LoopBack(), port) : cl.Connect(ipv4_address::LoopBack(), port); }, &e) == Returned && !ok && errors == 1 && conn == 0, k + ":refused", "%s; %d errors, %d connections told", e.c_str(), errors, conn);
		::close(held);
		count("refused connections");
	}
	expect(openFiles() == files, k + ":descriptors", "%zu descriptors before, %zu after", files, openFiles());
	seen("pair", r.next());
	for (auto f : { SocketAddressFamilies::None, SocketAddressFamilies::IPv4 })
	{
		auto p = f == SocketAddressFamilies::None ? SocketProtocols::TCP : SocketProtocols::None;
		expect(outcome([&] { SocketClient x(f, p, SocketTransports::Stream); }, &e) == Threw, k + ":ctor", "%s", e.c_str());
		expect(outcome([&] { SocketServer x(f, p, SocketTransports::Stream); }, &e) == Threw, "server:ctor", "%s", e.c_str());
		expect(outcome([&] { SocketClient x(SocketAddressFamilies::IPv4, SocketProtocols::TCP, SocketTransports::None); }, &e) == Threw, k + ":ctor", "%s", e.c_str());
	}
}
void cases()
{
	if (part("address")) for (size_t i = 0; i < reps(2000, 200000); ++i) run(strf("address#%zu", i), addresses);
	if (part("event")) { for (size_t i = 0; i < reps(600, 40000); ++i) run(strf("event#%zu", i), events); }
	if (part("event-threads")) { for (size_t i = 0; i < reps(40, 1500); ++i) run(strf("event-threads#%zu", i), eventThreads); }
	if (part("socket") && loopback())
	{
		for (size_t i = 0; i < reps(60, 1500); ++i) run(strf("tcp#%zu", i), tcp);
		for (size_t i = 0; i < reps(20, 500); ++i) run(strf("udp#%zu", i), udp);
		for (size_t i = 0; i < reps(30, 700); ++i) run(strf("pair#%zu", i), pair);
	}
}
