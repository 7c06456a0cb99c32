// independent RFC 6455 client side: handshake, frame writer and strict frame reader
#pragma once
#include "net.hpp"
#include "ref_sha1.hpp"
namespace ws {
inline std::string b64(const std::string& d) { static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = (uint8_t)d[i] << 16 | (i + 1 < d.size() ? (uint8_t)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (uint8_t)d[i + 2] : 0); o += A[v >> 18]; o += A[v >> 12 & 63]; o += i + 1 < d.size() ? A[v >> 6 & 63] : '='; o += i + 2 < d.size() ? A[v & 63] : '='; } return o; }
inline std::string accept(const std::string& key) { RefSha1 h; auto t = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; h.update((const uint8_t*)t.data(), t.size()); auto d = h.digest(); return b64(std::string(d.begin(), d.end())); }
// first byte as given; len is announced instead of the payload's size when set
inline std::string head(uint8_t b0, uint64_t n, bool masked, uint32_t mask) { std::string o(1, (char)b0); uint8_t m = masked ? 128 : 0; if (n < 126) o += (char)(m | n); else if (n < 65536) { o += (char)(m | 126); o += (char)(n >> 8); o += (char)n; } else { o += (char)(m | 127); for (int i = 7; i >= 0; i--) o += (char)(n >> 8 * i); } if (masked) for (int i = 3; i >= 0; i--) o += (char)(mask >> 8 * i); return o; }
inline std::string frame(uint8_t b0, const std::string& p, uint32_t mask, bool masked = true) { auto o = head(b0, p.size(), masked, mask); size_t h = o.size(); o += p; if (masked) for (size_t i = 0; i < p.size(); i++) o[h + i] ^= (char)(mask >> 8 * (3 - i % 4)); return o; }
struct Frame { bool fin = false; int op = 0; std::string data; };
// 1 complete, 0 more needed, -1 malformed
inline int parse(const std::string& in, size_t& at, Frame& f, std::string& why) {
	if (in.size() - at < 2) return 0; uint8_t a = in[at], b = in[at + 1]; f.fin = a & 128; f.op = a & 15; if (a & 0x70) { why = "reserved bits in frame head " + pbt::show(in.substr(at, 2)); return -1; } if (b & 128) { why = "masked frame from the server"; return -1; }
	if (f.op > 2 && (f.op < 8 || f.op > 10)) { why = "opcode " + std::to_string(f.op); return -1; } uint64_t n = b & 127; size_t h = 2; if (n == 126) { h = 4; if (in.size() - at < h) return 0; n = (uint8_t)in[at + 2] << 8 | (uint8_t)in[at + 3]; if (n < 126) { why = "16 bit length for " + std::to_string(n); return -1; } } else if (n == 127) { h = 10; if (in.size() - at < h) return 0; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (uint8_t)in[at + 2 + i]; if (n < 65536 || n >> 40) { why = "64 bit length for " + std::to_string(n); return -1; } }
	if (f.op >= 8 && (!f.fin || n > 125)) { why = "control frame fragmented or too long"; return -1; } if (in.size() - at < h + n) return 0; f.data = in.substr(at + h, n); at += h + n; return 1;
}
// reads frames until the stream is over or done(); error text or ""
struct Reader { net::Client& c; std::vector<Frame> got; std::string err; bool closed = false; bool keepalive = false;
	void take() { size_t at = 0; Frame f; while (err.empty()) { int r = ws::parse(c.in, at, f, err); if (r <= 0) break; if (closed) { err = "frame with opcode " + std::to_string(f.op) + " after the close frame"; break; } if (f.op == 8) closed = true; if (f.op == 9 && f.data == "ping/lambda/ws" && !keepalive) continue; got.push_back(f); } c.in.erase(0, at); } };
inline std::string request(const std::string& id, const std::string& key, const std::string& more = "") { return "GET /ws HTTP/1.1\r\nHost: localhost\r\nx-case: " + id + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + key + "\r\n" + more + "\r\n"; }
inline std::string shake(net::Client& c, const std::string& id, const std::string& key = "dGhlIHNhbXBsZSBub25jZQ==", const std::string& more = "") { if (!c.send(request(id, key, more))) return "handshake request cannot be sent"; net::Response r; std::string why; size_t size = 0; int st = 0; c.wait([&] { if (c.in.empty()) return false; st = net::parse(c.in, 0, false, r, why, true); size = r.size; return st != 0; }); if (st < 0) return "malformed handshake response: " + why; if (!st) return "no handshake response"; c.in.erase(0, size);
	if (r.status != 101) return "handshake answered with status " + std::to_string(r.status); if (!net::ieq(r.get("upgrade"), "websocket")) return "handshake response upgrades to " + pbt::show(r.get("upgrade")); if (r.all("sec-websocket-accept") != std::vector<std::string>{ accept(key) }) return "handshake accept value " + pbt::show(r.get("sec-websocket-accept")) + " instead of " + accept(key); std::string cn = r.get("connection"); for (auto& ch : cn) ch = tolower(ch); if (cn.find("upgrade") == std::string::npos) return "handshake response has connection " + pbt::show(cn); return ""; }
inline int code(const Frame& f) { return f.data.size() < 2 ? -1 : (uint8_t)f.data[0] << 8 | (uint8_t)f.data[1]; }
}
