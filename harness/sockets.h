// Framing of the transports by hand, and plain sockets.
#pragma once
#include "common.h"
#include <poll.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <DotsTransportHeader.dots.h>
using namespace vt;
using dots::serialization::CborSerializer;

// ------------------------------------------------------------ framing by hand
[[maybe_unused]] static std::string cbor(const dots::type::Struct& s, dots::property_set_t set = dots::property_set_t::All)
{
    CborSerializer ser;
    ser.serialize(s, set);
    return { ser.output().begin(), ser.output().end() };
}

[[maybe_unused]] static std::string frame2(const std::string& body, size_t size)
{
    std::string o{ char(0x1a) };
    for (int i = 3; i >= 0; --i) o += char(size >> 8 * i);
    return o + body;
}

[[maybe_unused]] static std::string frame1(const std::string& header, const std::string& body) { return std::string{ char(header.size()), char(header.size() >> 8) } + header + body; }

[[maybe_unused]] static std::string frameWs(const std::string& body, bool masked, int op = 1, bool fin = true)
{
    std::string o{ char((fin ? 0x80 : 0) | op) };
    char m = masked ? char(0x80) : 0;
    if (body.size() < 126) o += char(m | body.size());
    else if (body.size() < 65536) { o += char(m | 126); o += char(body.size() >> 8); o += char(body.size()); }
    else { o += char(m | 127); for (int i = 7; i >= 0; --i) o += char(uint64_t(body.size()) >> 8 * i); }
    if (!masked) return o + body;
    std::string key = "\x11\x22\x33\x44";
    o += key;
    for (size_t i = 0; i < body.size(); ++i) o += char(body[i] ^ key[i % 4]);
    return o;
}

// one frame at pos; false while it is incomplete
[[maybe_unused]] static bool parse(int fmt, const std::string& s, size_t& pos, DotsHeader& header, dots::type::AnyStruct& inst)
{
    auto* p = reinterpret_cast<const uint8_t*>(s.data());
    CborSerializer ser;
    size_t avail = s.size() - pos;
    auto body = [&](size_t off, size_t size)
    {
        ser.setInput(p + off, size);
        inst = dots::type::AnyStruct{ allTypes().getStructType(*header.typeName) };
        ser.deserialize(*inst);
        if (ser.inputAvailable() != 0) throw std::runtime_error("wire: bytes left over in a frame");
    };
    if (fmt == 2)
    {
        if (avail < 5) return false;
        if (p[pos] != 0x1a) throw std::runtime_error("wire: bad size prefix");
        size_t size = (size_t(p[pos + 1]) << 24) | (p[pos + 2] << 16) | (p[pos + 3] << 8) | p[pos + 4];
        if (avail < 5 + size) return false;
        ser.setInput(p + pos + 5, size);
        header = ser.deserialize<DotsHeader>();
        size_t rest = ser.inputAvailable();
        body(pos + 5 + size - rest, rest);
        pos += 5 + size;
        return true;
    }
    if (fmt == 1)
    {
        if (avail < 2) return false;
        size_t hs = p[pos] | (p[pos + 1] << 8);
        if (avail < 2 + hs) return false;
        ser.setInput(p + pos + 2, hs);
        auto th = ser.deserialize<DotsTransportHeader>();
        if (ser.inputAvailable() != 0) throw std::runtime_error("wire: bytes left over in a header");
        if (avail < 2 + hs + *th.payloadSize) return false;
        header = *th.dotsHeader;
        if (*th.destinationGroup != *header.typeName) throw std::runtime_error("wire: bad destination group");
        body(pos + 2 + hs, *th.payloadSize);
        pos += 2 + hs + *th.payloadSize;
        return true;
    }
    // WebSocket: text frames, possibly continued
    std::string payload;
    for (size_t q = pos;;)
    {
        if (s.size() - q < 2) return false;
        bool fin = p[q] & 0x80, masked = p[q + 1] & 0x80;
        int op = p[q] & 15;
        uint64_t len = p[q + 1] & 0x7f;
        size_t h = 2;
        if (len == 126) { if (s.size() - q < 4) return false; len = (p[q + 2] << 8) | p[q + 3]; h = 4; }
        else if (len == 127) { if (s.size() - q < 10) return false; len = 0; for (int i = 0; i < 8; ++i) len = len << 8 | p[q + 2 + i]; h = 10; }
        size_t key = q + h;
        if (masked) h += 4;
        if (s.size() - q < h + len) return false;
        for (size_t i = 0; i < len; ++i) payload += char(p[q + h + i] ^ (masked ? p[key + i % 4] : 0));
        q += h + len;
        if (op > 1 || (op == 1 && payload.size() != len)) throw std::runtime_error("wire: unexpected frame " + std::to_string(op));
        if (fin) { pos = q; break; }
    }
    dots::serialization::JsonSerializer js;
    js.setInput(payload.data(), payload.size());
    js.reader().readArrayBegin();
    header = DotsHeader{};
    js.deserialize(header);
    inst = dots::type::AnyStruct{ allTypes().getStructType(*header.typeName) };
    js.deserialize(*inst);
    js.reader().readArrayEnd();
    return true;
}

// -------------------------------------------------------------------- sockets
[[maybe_unused]] static int connectTcp(int p)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(uint16_t(p));
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) throw std::runtime_error("harness: connect");
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return fd;
}

[[maybe_unused]] static int connectUds(const std::string& path)
{
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    strcpy(a.sun_path, path.c_str());
    if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) throw std::runtime_error("harness: connect");
    return fd;
}

[[maybe_unused]] static std::string recvHead(int fd)
{
    std::string h;
    char c;
    while (h.size() < 4 || h.substr(h.size() - 4) != "\r\n\r\n")
    {
        pollfd p{ fd, POLLIN, 0 };
        if (poll(&p, 1, 3000) <= 0 || recv(fd, &c, 1, 0) != 1) throw std::runtime_error("harness: handshake");
        h += c;
    }
    return h;
}
