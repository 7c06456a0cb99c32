// C30: the TCP layer, used directly
#include "net.hpp"
#include <core/network/tcp/listener.hpp>
using namespace pbt; using namespace net; namespace T = Lambda::Network::TCP; using Lambda::Network::NetworkError; using Lambda::Network::SetTimeoutsDirection; using T::Connection; using T::ListenSocket;
// ------------------------------------------------------------ faults
static std::atomic<int> faulty{ 0 }; static std::atomic<uint32_t> frng{ 1 }; static thread_local bool exempt = false;
static uint32_t dice() { uint32_t r = frng = frng * 1664525u + 1013904223u; return r >> 8; }
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) { if (faulty && !exempt && n > 0) { auto r = dice(); if (r % 8 == 0) { errno = EINTR; return -1; } if (n > 1 && r % 3) n = 1 + (r >> 4) % (r % 5 ? n : std::min<size_t>(n, 10)); } return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0); }
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) { if (faulty && !exempt && n > 0 && !(fl & MSG_DONTWAIT)) { auto r = dice(); if (r % 8 == 0) { errno = EINTR; return -1; } if (n > 1 && r % 3) n = 1 + (r >> 4) % (r % 5 ? n : std::min<size_t>(n, 10)); } return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr); }
// ------------------------------------------------------------ helpers
static std::unique_ptr<ListenSocket> shared;
static std::unique_ptr<ListenSocket> listener(uint32_t rx = 12000, uint32_t tx = 12000, bool reuse = false) { for (int i = 0;; i++) { T::ListenConfig k; k.allowPortReuse = reuse; k.port = someport(); k.connectionTimeouts = { rx, tx }; try { return std::make_unique<ListenSocket>(k); } catch (const NetworkError&) { if (i > 5000) throw; } } }
static void init() { shared = listener(50000, 50000, true); }
static bool ours(uint16_t port) { return listening(port) == 1; }
static void fresh(Case& c, ListenSocket& l, Client& cl, std::optional<Connection>& cn, int rcv = 0, int snd = 0) { if (!cl.open(l.getConfig().port, rcv, snd)) c.fail("harness: cannot connect"); cn = l.acceptConnection(); c.check(cn.has_value(), "acceptConnection() gives nothing"); c.check(cn->isOpen(), "accepted connection is not open"); auto& f = cn->info(); c.check(f.remoteAddr.port == cl.port() && f.remoteAddr.hostname == "127.0.0.1" && f.hostPort == l.getConfig().port, "connection info says " + f.remoteAddr.hostname + ":" + std::to_string(f.remoteAddr.port) + " on " + std::to_string(f.hostPort)); }
static std::vector<uint8_t> vec(const std::string& d) { return { d.begin(), d.end() }; }
static std::string data(Src& s, size_t n) { auto u = s.bytestr(1 + s.below(30)); std::string d; while (d.size() < n) { d += u; d += (char)(d.size() * 31 >> 4); } d.resize(n); return d; }
static size_t size(Src& s) { switch (s.weighted({ 4, 3, 2, 1 })) { case 0: return s.below(50); case 1: return s.pick({ 0u, 1u, 2u, 2047u, 2048u, 2049u, 4096u, 10000u }); case 2: return s.below(20000); default: return s.pick({ 65535u, 65536u, 300000u, 1000000u }); } }
template <class F> static std::string failure(F f) { try { f(); return ""; } catch (const NetworkError& e) { return "network error: " + std::string(e.what()); } catch (const Lambda::Error& e) { return "error: " + std::string(e.what()); } catch (const std::exception& e) { return "foreign exception: " + std::string(e.what()); } }
static void dead(Case& c, Connection& k, const std::string& what) { c.check(!k.isOpen(), what + " still claims to be open"); auto e = failure([&] { k.read(10); }); c.check(e.size() && e.compare(0, 7, "foreign"), "reading from " + what + " is no error (" + e + ")"); e = failure([&] { k.write(vec("x")); }); c.check(e.size() && e.compare(0, 7, "foreign"), "writing to " + what + " is no error (" + e + ")"); }
// ------------------------------------------------------------ both directions under faults
static void transfer(Src& s, Case& c) {
	exempt = true; Client cl; std::optional<Connection> cn; bool tiny = s.chance(1, 4); fresh(c, *shared, cl, cn, tiny ? 4096 : 0); std::string up = data(s, size(s)), down; std::vector<std::vector<uint8_t>> w; size_t n = s.below(12); for (size_t i = 0; i < n; i++) { auto d = data(s, std::min<size_t>(size(s), down.size() > (tiny ? 20000u : 600000u) ? (tiny ? 2000 : 20000) : tiny ? 50000 : 1000000)); down += d; w.push_back(vec(d)); } auto seg = cut(s, up); std::vector<size_t> rs(1 + s.below(8)); for (auto& r : rs) r = s.pick({ 0u, 1u, 2u, 7u, 100u, 2048u, 5000u, 100000u }); if (up.size() > 5000) for (auto& r : rs) r = std::max<size_t>(r, 500); if (std::count(rs.begin(), rs.end(), 0u) == (long)rs.size()) rs[0] = 64; bool plain = s.chance(1, 4), half = s.flip(); int end = s.weighted({ 4, 2, 1 }); bool thr = s.flip(); faulty = s.flip(); frng = s.below(1 << 30) + 1; if (s.chance(1, 4)) cl.chunk = 3000; if (end == 0) w.erase(std::remove_if(w.begin(), w.end(), [](auto& x) { return x.empty(); }), w.end());
	c.note(std::to_string(up.size()) + " bytes up in " + plan(seg) + ", " + std::to_string(w.size()) + " writes of together " + std::to_string(down.size()) + " bytes down" + (faulty ? ", interrupted and short calls" : "") + (end == 0 ? ", peer half-closes" : end == 1 ? ", peer closes" : ", local end") + "\n"); if (faulty) c.label("interrupted and short calls");
	std::string got, err; std::thread wr([&] { exempt = false; err = failure([&] { for (auto& d : w) cn->write(d); }); exempt = true; }); std::string rerr; bool closed = false; cn->flags.throwOnDisconnect = thr;
	std::atomic<bool> rdone{ false }; std::thread rd([&] { exempt = false; rerr = failure([&] { size_t i = 0; while (end == 0 || got.size() < up.size()) { size_t k = rs[i++ % rs.size()]; auto b = plain ? cn->read() : cn->read(k); if (plain) k = 2048; if (b.size() > k) throw std::runtime_error("read(" + std::to_string(k) + ") returned " + std::to_string(b.size()) + " bytes"); got.append(b.begin(), b.end()); if (b.empty() && k) { closed = !cn->isOpen(); break; } } }); exempt = true; rdone = true; });
	size_t need = down.size(); bool fin = false; (void)half; bool ok = cl.run(seg, [&] { if (!fin && end == 0 && cl.sent == up.size()) { bool all = half || cl.in.size() >= need; if (all) { cl.finish(); fin = true; } } return cl.in.size() >= need && cl.sent == up.size() && (end != 0 || fin); }); if (!ok && cl.in.size() == need && end == 0 && cl.sent == up.size() && !fin) { cl.finish(); }
	if (end == 0 && half && !ok) {}	// end of stream may close the local side while it still writes
	wr.join(); if (end == 1) { eventually(12, [&] { return rdone.load(); }); cl.drop(); } rd.join(); faulty = 0;
	bool early = end == 0 && half && need > 0;	// the reader ends the connection as soon as it sees the end of stream
	if (!early) { c.check(err.empty(), "write failed: " + err); c.check(rerr.empty(), "read failed: " + rerr); c.check(cl.in.size() == down.size(), std::to_string(cl.in.size()) + " bytes arrived instead of " + std::to_string(down.size())); } else c.check(rerr.empty(), "read failed: " + rerr);
	c.checkf(down.compare(0, cl.in.size(), cl.in) == 0, [&] { size_t k = 0; while (k < cl.in.size() && k < down.size() && cl.in[k] == down[k]) k++; return "byte " + std::to_string(k) + " of " + std::to_string(down.size()) + " arrived changed"; }); c.checkf(got == up, [&] { size_t k = 0; while (k < got.size() && k < up.size() && got[k] == up[k]) k++; return std::to_string(got.size()) + " bytes read instead of " + std::to_string(up.size()) + ", first difference at " + std::to_string(k); });
	if (end == 0) { c.check(closed, "connection open after the end of stream"); dead(c, *cn, "a connection that has ended"); } else if (end == 1) { auto e = failure([&] { auto b = cn->read(100); c.check(b.empty(), "bytes after the end of stream"); }); c.check(e.compare(0, 7, "foreign"), e); dead(c, *cn, "a connection that has ended"); } else { cn->end(); dead(c, *cn, "an ended connection"); cn->end(); cl.waitend(); c.check(cl.eof && !cl.reset, "peer of an ended connection sees " + std::string(cl.reset ? "a reset" : "no end")); } c.nontrivial(up.size() + down.size() > 0 && (n > 1 || seg.size() > 1 || rs.size() > 1)); if (down.size() > 200000) c.label("large write");
}
// ------------------------------------------------------------ timeouts
static void timeouts(Src& s, Case& c) {
	exempt = true; size_t n = 24 + s.below(16); struct K { unsigned kind; uint32_t ms; std::string note, err; bool close; int via; }; std::vector<K> v(n); static const char* KIND[] = { "receive, silent peer", "receive after some data", "send, peer does not read", "receive, other direction configured short", "receive, data just in time" };
	for (auto& k : v) { k.kind = s.weighted({ 3, 2, 2, 1, 1 }); k.ms = s.weighted({ 4, 2 }) ? s.pick({ 1000u, 1001u, 1100u, 1250u, 1500u, 1750u, 1999u }) : s.pick({ 1u, 5u, 20u, 50u, 99u, 150u, 250u, 333u, 500u, 750u, 999u }); if (k.kind == 3 || k.kind == 4) k.ms = std::max(k.ms, 250u); if (k.kind == 2 && k.ms > 1250) k.ms = 1250; k.close = s.flip(); k.via = s.below(4); k.note = std::string(KIND[k.kind]) + " " + std::to_string(k.ms) + " ms via " + (k.via == 0 ? "listener" : k.via == 1 ? "setTimeouts(direction)" : k.via == 2 ? "setTimeouts both" : "setTimeouts(value)"); c.note(k.note + "\n"); c.label(KIND[k.kind]); if (k.ms > 1000 && k.ms % 1000) c.label("fraction above a second"); }
	std::vector<std::thread> t; for (auto& k : v) t.emplace_back([&k] { exempt = true; try {
		bool rx = k.kind != 2; uint32_t other = k.kind == 3 ? 20 : 12000; auto l = k.via == 0 ? listener(rx ? k.ms : other, rx ? other : k.ms, true) : listener(12000, 12000, true); Client cl; if (!cl.open(l->getConfig().port, k.kind == 2 ? 4096 : 0)) { k.err = "harness: cannot connect"; return; } auto cn = l->acceptConnection(); if (!cn) { k.err = "nothing accepted"; return; } if (k.via == 1) { cn->setTimeouts(k.ms, rx ? SetTimeoutsDirection::Receive : SetTimeoutsDirection::Send); if (k.kind == 3) cn->setTimeouts(20, SetTimeoutsDirection::Send); } else if (k.via == 2) { cn->setTimeouts(k.ms, SetTimeoutsDirection::Both); } else if (k.via == 3) cn->setTimeouts(k.ms);
		auto it = cn->info().timeouts; if ((rx ? it.receive : it.send) != k.ms) k.err = "info() reports a timeout of " + std::to_string(rx ? it.receive : it.send) + " ms"; uint32_t want2 = k.via == 0 ? other : k.via == 1 ? (k.kind == 3 ? 20 : 12000) : k.ms; if ((rx ? it.send : it.receive) != want2) k.err = "info() reports a timeout of " + std::to_string(rx ? it.send : it.receive) + " ms for the other direction"; cn->flags.closeOnTimeout = k.close; double lo = k.ms * 0.001, got = 0; bool late = false;
		if (k.kind == 2) { std::vector<uint8_t> b(8 << 20, 'x'); double t0 = now(); auto e = failure([&] { cn->write(b); }); got = now() - t0; if (e.compare(0, 7, "network")) k.err = "write to a peer that does not read: " + (e.empty() ? "no error" : e); if (got < lo - 0.012) k.err = "write gave up after " + std::to_string(got * 1000) + " ms"; if (got > 2 * lo + 3) k.err = "write gave up only after " + std::to_string(got * 1000) + " ms"; cl.rst(); return; }
		if (k.kind == 1) { cl.send("abc"); auto b = cn->read(3); if (b.size() != 3 && b.size() != 0) b = cn->read(3); } std::thread snd; if (k.kind == 4) { snd = std::thread([&] { exempt = true; nap(lo * 0.4); cl.send("late"); }); } double t0 = now(); std::vector<uint8_t> b; auto e = failure([&] { b = cn->read(100); }); got = now() - t0; if (snd.joinable()) snd.join(); if (e.size()) { k.err = "read that times out fails: " + e; return; }
		if (k.kind == 4 && !late) { if (b.empty()) { if (got < lo - 0.012) k.err = "read ended after " + std::to_string(got * 1000) + " ms"; else if (got < lo + 0.05) {} else k.err = "data sent in time was not read"; } else if (std::string(b.begin(), b.end()) != "late" || !cn->isOpen()) k.err = "data sent in time was not read"; return; }
		if (b.size()) k.err = "bytes from a silent peer"; if (got < lo - 0.012) k.err = "read timed out after " + std::to_string(got * 1000) + " ms"; if (got > lo + 3) k.err = "read timed out only after " + std::to_string(got * 1000) + " ms"; if (cn->isOpen() == k.close) k.err = k.close ? "connection open after the timeout" : "connection closed by the timeout";
		if (k.err.empty() && !k.close) { cl.send("more"); auto b2 = cn->read(100); if (b2.empty()) b2 = cn->read(100); if (k.ms >= 50 && std::string(b2.begin(), b2.end()) != "more") k.err = "connection does not work after a timeout"; } if (k.err.empty() && k.close) { cl.waitend(); if (!cl.over()) k.err = "peer not told of the end"; } } catch (const std::exception& e) { k.err = e.what(); } }); for (auto& x : t) x.join(); for (auto& k : v) c.check(k.err.empty(), k.note + ": " + k.err); c.nontrivial(true);
}
// ------------------------------------------------------------ peers that disappear
static void gone(Src& s, Case& c) {
	exempt = true; Client cl; std::optional<Connection> cn; fresh(c, *shared, cl, cn); unsigned how = s.below(3); bool thr = s.flip(), waitread = s.flip(), multi = s.chance(1, 4); cn->flags.throwOnDisconnect = thr; std::string up = data(s, s.flip() ? 0 : s.below(3000)); size_t wn = 1 + s.below(60000); c.note(std::to_string(up.size()) + " bytes from a peer that " + (how == 0 ? "resets" : how == 1 ? "closes" : "closes with unread data") + (thr ? ", errors thrown" : "") + (waitread ? ", read first\n" : ", write only\n")); if (how == 2) { cn->write(vec("unread")); nap(0.0002); } cl.send(up); if (how == 0) cl.rst(); else cl.drop(); nap(s.below(3) * 0.0002);
	if (waitread) { std::string got; std::string e; for (int i = 0; i < 20 && cn->isOpen(); i++) { e = failure([&] { auto b = cn->read(1 + wn); got.append(b.begin(), b.end()); }); if (e.size()) break; } c.check(!cn->isOpen(), "connection open after its peer " + std::string(how ? "closed" : "reset")); c.check(e.empty() || (thr && e.compare(0, 7, "network") == 0), "read: " + e); c.check(up.compare(0, got.size(), got) == 0 && (how == 1 ? got == up : true), "bytes lost or changed before the end of stream"); if (how == 1) c.check(e.empty(), "orderly end reported as " + e); dead(c, *cn, "a connection whose peer is gone"); }
	else { std::vector<uint8_t> b(wn, 'w'); std::string e; double end = now() + 12; auto work = [&] { exempt = true; std::string r; while (r.empty() && now() < end) { r = failure([&] { cn->write(b); }); if (r.empty()) nap(0.0003); } return r; }; std::vector<std::string> es(multi ? 3 : 1); std::vector<std::thread> t; for (auto& x : es) t.emplace_back([&] { x = work(); }); for (auto& x : t) x.join(); for (auto& x : es) { c.check(x.size(), "writing to a peer that is gone is never reported"); c.check(x.compare(0, 7, "foreign"), x); } }
	c.nontrivial(true); c.label(how == 0 ? "reset" : how == 1 ? "closed" : "closed with unread data");
}
// ------------------------------------------------------------ moves
static void moves(Src& s, Case& c) {
	exempt = true; size_t base = fds(); std::vector<std::unique_ptr<Client>> cls; { struct Slot { std::unique_ptr<Connection> k; int peer = -1; bool flag = true; uint32_t ms = 12000; }; std::vector<Slot> v; size_t n = 2 + s.below(16); std::vector<bool> ended; auto alive = [&](size_t i) { return v[i].peer >= 0; }; std::string op;
	auto gone1 = [&](int p) { cls[p]->waitend(); c.check(cls[p]->eof, "peer " + std::to_string(p) + " of a replaced or ended connection sees no end"); };
	for (size_t i = 0; i < n; i++) { unsigned o = v.size() < 2 ? 0 : s.below(6); size_t a = v.size() ? s.below(v.size()) : 0, b = v.size() ? s.below(v.size()) : 0; if (o == 0 && cls.size() > 5) o = 1;
		switch (o) { case 0: { cls.push_back(std::make_unique<Client>()); std::optional<Connection> k; fresh(c, *shared, *cls.back(), k); Slot x; x.ms = 5000 + (uint32_t)cls.size(); k->setTimeouts(x.ms); x.flag = s.flip(); k->flags.closeOnTimeout = x.flag; x.k = std::make_unique<Connection>(std::move(*k)); x.peer = cls.size() - 1; c.check(!k->isOpen(), "moved-from connection is open"); op = "accept peer " + std::to_string(x.peer); v.push_back(std::move(x)); break; }
		case 1: { op = "move #" + std::to_string(a) + " to a new one"; Slot x; x.k = std::make_unique<Connection>(std::move(*v[a].k)); x.peer = v[a].peer; x.flag = v[a].flag; x.ms = v[a].ms; v[a].peer = -1; v.push_back(std::move(x)); break; }
		case 2: case 3: { op = "assign #" + std::to_string(a) + " to #" + std::to_string(b); c.note(op + "; "); *v[b].k = std::move(*v[a].k); if (a != b) { int was = v[b].peer; v[b].peer = v[a].peer; v[b].flag = v[a].flag; v[b].ms = v[a].ms; v[a].peer = -1; if (was >= 0) gone1(was); } break; }
		case 4: { op = "end #" + std::to_string(a); c.note(op + "; "); v[a].k->end(); int was = v[a].peer; v[a].peer = -1; if (was >= 0) gone1(was); break; } default: { op = "destroy #" + std::to_string(a); c.note(op + "; "); int was = v[a].peer; v.erase(v.begin() + a); if (was >= 0) gone1(was); } }
		if (o < 2) c.note(op + "; "); c.label(o == 0 ? "accept" : o == 1 ? "move construction" : o < 4 ? "move assignment" : o == 4 ? "end" : "destroy");
		for (size_t q = 0; q < v.size(); q++) { auto nm = "#" + std::to_string(q) + " after " + op; if (!alive(q)) { dead(c, *v[q].k, nm); continue; } c.check(v[q].k->isOpen(), nm + " is not open"); auto& x = *cls[v[q].peer]; auto tag = std::to_string(i) + "." + std::to_string(q); v[q].k->write(vec(tag)); x.wait([&] { return x.in.size() >= tag.size(); }); c.check(x.in == tag, nm + ": its peer got " + show(x.in)); x.in.clear(); x.send("r" + tag); auto r = v[q].k->read(100); c.check(std::string(r.begin(), r.end()) == "r" + tag, nm + ": read " + show(std::string(r.begin(), r.end()))); auto& f = v[q].k->info(); c.check(f.remoteAddr.port == x.port() && f.timeouts.receive == v[q].ms && v[q].k->flags.closeOnTimeout == v[q].flag, nm + ": info or flags were not moved along"); } } c.nontrivial(n > 4); }
	size_t live = cls.size(); c.check(fds() == base + live, std::to_string((long)fds() - (long)(base + live)) + " descriptors left over");
}
static void listeners(Src& s, Case& c) {
	exempt = true; size_t base = fds(); bool raced = false; { std::vector<std::pair<std::unique_ptr<ListenSocket>, uint16_t>> v; size_t n = 2 + s.below(12); std::vector<uint16_t> freed; std::string op;
	for (size_t i = 0; i < n; i++) { unsigned o = v.empty() ? 0 : s.below(8); size_t a = v.size() ? s.below(v.size()) : 0, b = v.size() ? s.below(v.size()) : 0; freed.clear();
		switch (o) { case 0: { auto l = listener(12000, 12000, s.flip()); auto p = l->getConfig().port; v.push_back({ std::move(l), p }); op = "listen"; break; } case 1: { auto l = std::make_unique<ListenSocket>(std::move(*v[a].first)); v.push_back({ std::move(l), v[a].second }); v[a].second = 0; op = "move #" + std::to_string(a) + " to a new one"; break; } case 2: case 3: { op = "assign #" + std::to_string(a) + " to #" + std::to_string(b); *v[b].first = std::move(*v[a].first); if (a != b) { if (v[b].second) freed.push_back(v[b].second); v[b].second = v[a].second; v[a].second = 0; } break; } case 4: { op = "stop #" + std::to_string(a); v[a].first->stop(); if (v[a].second) freed.push_back(v[a].second); v[a].second = 0; break; }
		case 5: { op = "destroy #" + std::to_string(a); if (v[a].second) freed.push_back(v[a].second); v.erase(v.begin() + a); break; }
		case 6: { op = "stop #" + std::to_string(a) + " while accepting"; if (!v[a].second) break; raced = true; std::string e; bool some = false; double d = s.below(5) * 0.0002; size_t stops = 1 + s.below(3); std::thread t([&] { exempt = true; e = failure([&] { some = v[a].first->acceptConnection().has_value(); }); }); nap(d); std::vector<std::thread> st; for (size_t k = 0; k < stops; k++) st.emplace_back([&] { v[a].first->stop(); }); for (auto& x : st) x.join(); t.join(); c.check(!some && e.compare(0, 7, "foreign"), "accepting on a listener being stopped: " + e); freed.push_back(v[a].second); v[a].second = 0; break; }
		default: { op = "second listener on the port of #" + std::to_string(a); if (!v[a].second) break; T::ListenConfig k; k.port = v[a].second; auto e = failure([&] { ListenSocket x(k); }); c.check(!e.compare(0, 7, "network"), "two listeners share a port (" + e + ")"); } }
		c.note(op + "; "); for (auto p : freed) { Client x; c.check(!x.open(p) || !ours(p), "port still accepts after " + op); }
		for (size_t q = 0; q < v.size(); q++) { auto nm = "#" + std::to_string(q) + " after " + op; auto& l = *v[q].first; c.check(l.active() == (v[q].second != 0), nm + (l.active() ? " is active" : " is not active")); if (!v[q].second) { bool some = false; auto e = failure([&] { some = l.acceptConnection().has_value(); }); c.check(!some && e.compare(0, 7, "foreign"), nm + " accepts something"); continue; } c.check(l.getConfig().port == v[q].second, nm + " reports another port"); Client x; std::optional<Connection> k; fresh(c, l, x, k); k->write(vec("hi")); x.wait([&] { return x.in.size() >= 2; }); c.check(x.in == "hi", nm + " accepts a connection that does not work"); } } c.nontrivial(n > 4); if (raced) c.label("stopped while accepting"); }
	c.check(fds() == base, std::to_string((long)fds() - (long)base) + " descriptors left over");
}
// ------------------------------------------------------------ threads
static void several(Src& s, Case& c) {
	exempt = true; Client cl; std::optional<Connection> cn; bool tiny = s.chance(1, 3); fresh(c, *shared, cl, cn, tiny ? 4096 : 0); size_t n = 2 + s.below(4), m = 1 + s.below(12); unsigned ending = s.weighted({ 4, 2, 1 }); faulty = s.flip(); frng = s.below(1 << 30) + 1; if (s.chance(1, 3)) cl.chunk = 2000; std::vector<std::vector<std::string>> w(n); size_t total = 0; for (size_t k = 0; k < n; k++) for (size_t i = 0; i < m; i++) { size_t len = s.weighted({ 4, 2, 1 }); len = len == 0 ? s.below(40) : len == 1 ? s.below(5000) : tiny ? (total > 60000 ? 500 : 30000) : 60000; std::string d = "[" + std::to_string(k) + "." + std::to_string(i) + ":" + std::to_string(len) + "]" + std::string(len, (char)('a' + (k * 7 + i) % 26)); total += d.size(); w[k].push_back(d); }
	c.note(std::to_string(n) + " threads, " + std::to_string(m) + " writes each, " + std::to_string(total) + " bytes" + (faulty ? ", interrupted and short calls" : "") + (ending == 0 ? "\n" : ending == 1 ? ", ended meanwhile\n" : ", reset by the peer meanwhile\n")); std::vector<std::string> err(n); std::vector<size_t> done(n, 0); std::vector<std::thread> t; std::string up, upsent, rerr; for (size_t k = 0; k < n; k++) t.emplace_back([&, k] { exempt = false; err[k] = failure([&] { for (auto& d : w[k]) { cn->write(vec(d)); done[k]++; } }); exempt = true; });
	std::thread rd([&] { exempt = false; rerr = failure([&] { for (;;) { auto b = cn->read(700); if (b.empty()) break; up.append(b.begin(), b.end()); } }); exempt = true; }); std::vector<Segment> seg; for (size_t i = 0; i < s.below(10); i++) { auto d = s.bytestr(s.below(2000)); upsent += d; seg.push_back({ d, s.flip() ? 0.0002 : 0 }); } size_t stopat = ending ? s.below(total) : total; size_t ends = 1 + s.below(2); double enddelay = s.below(4) * 0.0003; std::vector<std::thread> et; std::atomic<bool> isopen{ true }; std::thread obs([&] { while (isopen) { cn->isOpen(); std::this_thread::yield(); } });
	if (ending == 1) for (size_t i = 0; i < ends; i++) et.emplace_back([&] { exempt = true; nap(enddelay); cn->end(); }); bool ok = cl.run(seg, [&] { return cl.in.size() >= (ending == 2 ? stopat : total) && (ending == 2 || cl.sent == upsent.size()); }); (void)ok; if (ending == 2) cl.rst(); else if (ending == 0) cl.finish(); else { cl.waitend(); }
	for (auto& x : et) x.join(); for (auto& x : t) x.join(); rd.join(); isopen = false; obs.join(); faulty = 0; std::string e0; for (auto& e : err) { c.check(e.compare(0, 7, "foreign"), e); e0 += e; } c.check(rerr.compare(0, 7, "foreign"), rerr); c.check(!cn->isOpen(), "connection still open"); if (ending == 0) { c.check(e0.empty(), "write failed: " + e0); c.check(rerr.empty(), "read failed: " + rerr); c.check(cl.in.size() == total, std::to_string(cl.in.size()) + " bytes arrived instead of " + std::to_string(total)); c.check(up == upsent, std::to_string(up.size()) + " bytes read instead of " + std::to_string(upsent.size())); } else c.check(upsent.compare(0, up.size(), up) == 0, "bytes read changed");
	std::vector<size_t> at(n, 0); size_t p = 0; while (p < cl.in.size()) { size_t e = cl.in.find(']', p), k = strtoul(cl.in.c_str() + p + 1, nullptr, 10); if (cl.in[p] != '[' || (e == std::string::npos ? ending == 0 : (k >= n || at[k] >= w[k].size()))) c.fail("writes are mixed: " + show(cl.in.substr(p, 60))); if (e == std::string::npos) break; auto& d = w[k][at[k]]; size_t len = std::min(d.size(), cl.in.size() - p); c.checkf(cl.in.compare(p, len, d, 0, len) == 0 && (len == d.size() || ending), [&] { return "write " + std::to_string(k) + "." + std::to_string(at[k]) + " arrives mixed with others or out of order: " + show(cl.in.substr(p, 60)); }); p += len; at[k]++; } if (ending == 1) for (size_t k = 0; k < n; k++) c.check(at[k] >= done[k], "a finished write of thread " + std::to_string(k) + " is lost"); c.nontrivial(true); c.label(ending == 0 ? "all arrive" : ending == 1 ? "ended meanwhile" : "reset meanwhile"); if (cl.chunk < 10000) c.label("slow peer");
}
int main(int argc, char** argv) {
	return run(argc, argv, "C30", {
		{ "transfer", transfer, 6000, 250000, "a connection written in up to 12 pieces and read in pieces of up to 100000 bytes at the same time, up to a megabyte each way, peers slow or with small buffers, system calls interrupted and cut short; ended by the peer's half-close or close or locally; both directions compared byte for byte, use after the end is an error; non-trivial: several pieces", 8, 60, 30, false, false, init },
		{ "timeouts", timeouts, 32, 800, "24-39 connections at once with timeouts from 1 to 1999 ms, set by the listener or later in either direction: silent peers, peers that send some data or just in time, peers that do not read; measured duration between the timeout and three seconds more, the close-on-timeout flag obeyed, the other direction unaffected; all non-trivial", 8, 60, 40 },
		{ "gone", gone, 12000, 250000, "peers that reset, close, or close with unread data while the connection is read or written (by up to three threads): everything sent before an orderly end is read, then the end is seen; errors only as configured; writes are reported sooner or later; all non-trivial", 8, 60, 25, false, false, init },
		{ "moves", moves, 5000, 100000, "sequences of up to 17 accepts, move constructions, move assignments (also onto open connections and itself), ends and destructions; after every step each connection talks to its own peer with its info and flags, moved-from and ended ones are closed, replaced peers see the end, descriptors are counted; non-trivial: more than four operations", 8, 60, 25, false, false, init },
		{ "listeners", listeners, 5000, 100000, "sequences of up to 13 listens, moves, assignments, stops, destructions, stops from up to three threads while another accepts, second listeners on a port; after every step exactly the live listeners accept, descriptors are counted; non-trivial: more than four operations", 8, 60, 25, false, false, init },
		{ "threads", several, 6000, 120000, "2-5 threads writing and one reading under interrupted and short calls and slow peers, ended by the peer, by one or two end() calls in other threads, or by a reset meanwhile: every write arrives contiguous and in its thread's order, finished writes survive end(); all non-trivial", 8, 60, 25, false, false, init },
		{ "threads-tsan", several, 1500, 20000, "the threads histories on a thread-sanitized build", 8, 60, 30, false, false, init } });
}
