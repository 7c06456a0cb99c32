// Loopback client, independent HTTP parser and server helpers for the harnesses
#pragma once
#include "pbt.hpp"
#include <lambda.hpp>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <optional>
#include <poll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
namespace net {
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void nap(double s) { if (s > 0) { timespec t{ (time_t)s, (long)((s - (time_t)s) * 1e9) }; while (nanosleep(&t, &t) && errno == EINTR) {} } }
inline bool eventually(double limit, const std::function<bool()>& f) { double end = now() + limit; for (double d = 0.0002;; d = std::min(d * 1.5, 0.02)) { if (f()) return true; if (now() > end) return f(); nap(d); } }
inline bool ieq(const std::string& a, const std::string& b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
// ------------------------------------------------------------ client
struct Segment { std::string data; double pause = 0; };		// pause before sending
class Client {
public:
	int fd = -1; std::string in; bool eof = false, reset = false; size_t sent = 0; bool sendfail = false; size_t chunk = 1 << 22; double lag = 0;	// reads at most chunk bytes, then naps
	Client() = default; Client(const Client&) = delete; Client& operator=(const Client&) = delete;
	Client(Client&& o) noexcept { *this = std::move(o); } Client& operator=(Client&& o) noexcept { drop(); fd = o.fd; in = std::move(o.in); eof = o.eof; reset = o.reset; sent = o.sent; sendfail = o.sendfail; o.fd = -1; return *this; }
	~Client() { drop(); }
	void drop() { if (fd >= 0) ::close(fd); fd = -1; }
	void rst() { if (fd < 0) return; linger l{ 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); drop(); }
	void finish() { if (fd >= 0) shutdown(fd, SHUT_WR); }
	bool open(uint16_t port, int rcvbuf = 0, int sndbuf = 0) {
		drop(); fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (fd < 0) return false; int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
		sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		int r; while ((r = connect(fd, (sockaddr*)&a, sizeof a)) && errno == EINTR) {} if (r) { drop(); return false; } fcntl(fd, F_SETFL, O_NONBLOCK); return true;
	}
	uint16_t port() const { sockaddr_in a{}; socklen_t n = sizeof a; getsockname(fd, (sockaddr*)&a, &n); return ntohs(a.sin_port); }
	// takes what has arrived; true when something changed
	bool pull() {
		size_t limit = chunk; if (lag > 0) nap(lag); if (fd < 0 || eof || reset) return false; bool any = false; std::string b(std::min<size_t>(limit, 65536), 0); size_t got = 0;
		while (got < limit) { int q = 1; setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &q, sizeof q); ssize_t n = syscall(SYS_recvfrom, fd, b.data(), std::min(b.size(), limit - got), MSG_DONTWAIT, nullptr, nullptr); if (n > 0) { in.append(b.data(), n); got += n; any = true; } else if (n == 0) { eof = true; return true; } else if (errno == EINTR) continue; else if (errno == EAGAIN) break; else { if (sendfail && (errno == EPIPE)) continue; reset = true; return true; } }
		return any;
	}
	bool over() const { return eof || reset; }
	// sends the plan and keeps receiving until done() or the peer ends or time is up; long limits (10 s and more) count from the last byte sent or received, up to 45 s
	bool run(const std::vector<Segment>& plan, const std::function<bool()>& done, double limit = 12) {
		double start = now(), end = start + limit; size_t i = 0, off = 0, moved = in.size() + sent; double due = plan.size() ? now() + plan[0].pause : 0;
		for (;;) {
			pull(); if (done && done()) return true; if (over()) return done ? done() : true; double t = now(); if (limit >= 10 && in.size() + sent != moved) { moved = in.size() + sent; end = std::max(end, std::min(t + limit, start + 45)); } if (t > end) return false;
			if (i >= plan.size() && !done) return true; bool can = i < plan.size() && !sendfail;
			if (can && t >= due) {
				while (i < plan.size()) { auto& d = plan[i].data; if (off < d.size()) { ssize_t n = syscall(SYS_sendto, fd, d.data() + off, d.size() - off, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); if (n < 0) { if (errno == EINTR) continue; if (errno != EAGAIN) sendfail = true; break; } off += n; sent += n; } if (off < d.size()) continue; i++; off = 0; if (i < plan.size()) { due = now() + plan[i].pause; if (plan[i].pause > 0) break; } }
				if (i >= plan.size() || sendfail) { if (!done) return !sendfail; continue; }
			}
			pollfd p{ fd, (short)(POLLIN | (can && now() >= due ? POLLOUT : 0)), 0 }; double w = std::min(end - t, can && due > t ? due - t : 0.05); timespec ts{ (time_t)w, (long)((w - (time_t)w) * 1e9) }; ppoll(&p, 1, &ts, nullptr);
		}
	}
	bool send(const std::string& d) { return run({ { d, 0 } }, nullptr); }
	bool wait(const std::function<bool()>& done, double limit = 12) { return run({}, done, limit); }
	bool waitend(double limit = 12) { return wait([&] { return over(); }, limit); }
};
// ------------------------------------------------------------ responses
struct Response { int status = 0; std::string version, reason, body; std::vector<std::pair<std::string, std::string>> headers; size_t size = 0;
	std::vector<std::string> all(const std::string& k) const { std::vector<std::string> o; for (auto& h : headers) if (ieq(h.first, k)) o.push_back(h.second); return o; }
	std::string get(const std::string& k) const { auto v = all(k); return v.size() ? v[0] : ""; } bool has(const std::string& k) const { return all(k).size(); } };
// 1 complete, 0 more needed, -1 malformed (why). untilend: body without length lasts to the end of the stream
inline int parse(const std::string& in, size_t at, bool head, Response& r, std::string& why, bool upgraded = false) {
	r = {}; auto e = in.find("\r\n\r\n", at); auto le = in.find("\r\n", at); static const std::string tchar = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
	if (in.compare(at, 5, std::string("HTTP/").substr(0, std::min<size_t>(5, in.size() - std::min(at, in.size()))))) { why = "response starts with " + pbt::show(in.substr(at), 60); return -1; }
	if (e == std::string::npos) return 0; std::string line = in.substr(at, le - at);
	if (line.size() < 13 || line.compare(0, 9, "HTTP/1.1 ") || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || line[12] != ' ') { why = "status line " + pbt::show(line, 80); return -1; }
	for (unsigned char ch : line) if (ch < 32 || ch == 127) { why = "control character in status line " + pbt::show(line, 80); return -1; }
	r.version = "HTTP/1.1"; r.status = atoi(line.c_str() + 9); r.reason = line.substr(13); size_t p = le + 2;
	while (p < e + 2) { auto q = in.find("\r\n", p); std::string h = in.substr(p, q - p); auto c = h.find(':'); if (c == std::string::npos || !c) { why = "header line " + pbt::show(h, 80); return -1; } auto k = h.substr(0, c), v = h.substr(c + 1); if (k.find_first_not_of(tchar) != std::string::npos) { why = "header name " + pbt::show(k, 80); return -1; }
		auto a = v.find_first_not_of(" \t"), z = v.find_last_not_of(" \t"); v = a == std::string::npos ? "" : v.substr(a, z - a + 1); for (unsigned char ch : v) if ((ch < 32 && ch != '\t') || ch == 127) { why = "control character in header " + pbt::show(h, 80); return -1; } r.headers.push_back({ k, v }); p = q + 2; }
	p = e + 4; if (head || r.status < 200 || r.status == 204 || r.status == 304 || upgraded) { r.size = p - at; return 1; }
	auto cl = r.all("content-length"); if (r.has("transfer-encoding")) { why = "unexpected transfer-encoding"; return -1; } if (cl.size() != 1 || cl[0].empty() || cl[0].size() > 12 || cl[0].find_first_not_of("0123456789") != std::string::npos) { why = "content-length " + (cl.size() ? pbt::show(cl[0]) : std::string("missing")) + (cl.size() > 1 ? " (repeated)" : ""); return -1; }
	size_t n = std::stoull(cl[0]); if (in.size() - p < n) { r.size = p - at + n; return 0; } r.body = in.substr(p, n); r.size = p - at + n; return 1;
}
// waits for the next response on a client and consumes it; empty string on success
inline std::string next(Client& c, bool head, Response& r, double limit = 12) {
	std::string why; int st = 0; size_t need = 0; c.wait([&] { if (c.in.empty() || c.in.size() < need) return false; st = parse(c.in, 0, head, r, why); if (st == 0) need = r.size; return st != 0; }, limit);
	if (st < 0) return "malformed response: " + why; if (!st) return c.over() ? "connection " + std::string(c.reset ? "reset" : "closed") + " after " + std::to_string(c.in.size()) + " bytes of a response" : "no complete response within " + std::to_string((int)limit) + " s (" + std::to_string(c.in.size()) + " bytes)";
	c.in.erase(0, r.size); return "";
}
// ------------------------------------------------------------ server
inline void quiet() { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); ::close(n); }
// a port that no other worker uses within its current case
inline std::atomic<uint32_t>* const portowner = (std::atomic<uint32_t>*)mmap(nullptr, 65536 * sizeof(std::atomic<uint32_t>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
inline uint16_t someport() {
	static std::mutex m; static std::vector<uint16_t> mine; static uint64_t serial = 0; static uint32_t k = 0; std::lock_guard<std::mutex> l(m); uint32_t me = (uint32_t)getpid();
	if (serial != pbt::case_serial) { for (auto p : mine) { uint32_t o = me; portowner[p].compare_exchange_strong(o, 0); } mine.clear(); serial = pbt::case_serial; }
	for (;;) { uint16_t p = 2000 + (me * 131 + 17 * k++) % 30000; uint32_t o = 0; if (portowner[p].compare_exchange_strong(o, me)) { mine.push_back(p); return p; } if (o == me || !kill((pid_t)o, 0)) continue; if (portowner[p].compare_exchange_strong(o, me)) { mine.push_back(p); return p; } }
}
inline Lambda::ServerConfig config() { Lambda::ServerConfig c; c.loglevel.requests = c.loglevel.startMessage = c.loglevel.transportEvents = false; c.service.fastPortReuse = false; return c; }
struct Server { std::unique_ptr<Lambda::LambdaInstance> inst; uint16_t port = 0; };
inline Server start(Lambda::ServerConfig c, Lambda::RequestCallback h) {
	for (int i = 0;; i++) { c.service.port = someport(); try { Server s; s.inst = std::make_unique<Lambda::LambdaInstance>(h, c); s.port = c.service.port; return s; } catch (const Lambda::Network::NetworkError& e) { if (i > 200) throw; } }
}
inline size_t count(const char* d) { size_t n = 0; if (auto h = opendir(d)) { while (auto e = readdir(h)) n += e->d_name[0] != '.'; closedir(h); n -= !strcmp(d, "/proc/self/fd"); } return n; }
inline size_t fds() { return count("/proc/self/fd"); }
// a listing of /proc/self/task can miss entries while threads end, the counter does not
inline size_t threads() { int fd = open("/proc/self/status", O_RDONLY | O_CLOEXEC); if (fd < 0) return 0; char b[8192]; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n < 0) n = 0; b[n] = 0; auto p = strstr(b, "\nThreads:"); return p ? strtoul(p + 9, nullptr, 10) : 0; }
// who is listening on a port: 0 nobody, 1 this process, 2 another one
inline int listening(uint16_t port) {
	std::ifstream f("/proc/self/net/tcp"); std::string l, ino; char want[16]; snprintf(want, sizeof want, ":%04X", port); std::getline(f, l);
	while (std::getline(f, l)) { std::istringstream i(l); std::string k, lo, re, st, x; i >> k >> lo >> re >> st; if (st != "0A" || lo.size() < 5 || lo.substr(lo.size() - 5) != want) continue; i >> x >> x >> x >> x >> x >> ino; }
	if (ino.empty()) return 0; bool r = false; if (auto h = opendir("/proc/self/fd")) { while (auto e = readdir(h)) { char b[64]; auto n = readlinkat(dirfd(h), e->d_name, b, sizeof b); if (n > 0 && std::string(b, n) == "socket:[" + ino + "]") r = true; } closedir(h); } return r ? 1 : 2;
}
// ------------------------------------------------------------ generators
// cuts data into segments, favouring the marks (offsets of interest)
inline std::vector<Segment> cut(pbt::Src& s, const std::string& d, const std::vector<size_t>& marks = {}, unsigned maxcuts = 12) {
	std::set<size_t> at; size_t k = s.weighted({ 3, 5, 1 }); if (k == 1) k = 1 + s.below(maxcuts); else if (k == 2) { size_t step = 1 + s.below(5), from = marks.size() ? marks[s.below(marks.size())] : 0; from -= std::min<size_t>(from, 20); for (size_t p = from; p < d.size() && at.size() < 60; p += step) at.insert(p); k = 0; }
	for (size_t i = 0; i < k; i++) { size_t p = marks.size() && s.flip() ? marks[s.below(marks.size())] + s.below(9) : s.below(d.size() + 1); p -= std::min<size_t>(p, 4); at.insert(p); }
	at.insert(d.size()); std::vector<Segment> o; size_t prev = 0; for (size_t p : at) { if (p > d.size() || p <= prev) continue; o.push_back({ d.substr(prev, p - prev), 0 }); prev = p; }
	unsigned mode = s.weighted({ 4, 4, 1 }); for (size_t i = 1; i < o.size(); i++) o[i].pause = mode == 0 ? 0 : mode == 1 ? (s.flip() ? 0.0003 : 0) : s.below(4) * 0.004; return o;
}
inline std::string plan(const std::vector<Segment>& v) { std::string o; for (size_t i = 0; i < v.size() && i < 30; i++) o += (i ? "|" : "") + (v[i].pause ? "+" + std::to_string((int)(v[i].pause * 1e6)) + "us " : std::string()) + std::to_string(v[i].data.size()); return o; }
}
