// Padding, byte streams, and the processors that run a cipher, MAC or digest over an array or a stream.
#include "ref.h"
#include "CipherModeFromName.h"
#include "CipherStream.h"
#include "CryptoPaddingException.h"
#include "DigestFromName.h"
#include "DigestStream.h"
#include "FileStream.h"
#include "MacFromName.h"
#include "MacStream.h"
#include "MemoryStream.h"
#include "PaddingFromName.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "SymmetricKey.h"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace vh;
using namespace CEX;
using namespace CEX::Enumeration;
using namespace CEX::IO;
using Cipher::SymmetricKey;
using Processing::CipherStream;
using Processing::DigestStream;
using Processing::MacStream;

// ---- padding ----
static const PaddingModes PADS[] = { PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne };
static const char* PADN[] = { "ESP", "PKCS7", "X923", "ZeroOne" };
static Bytes padOf(unsigned p, size_t n)
{
	Bytes b(n, 0);
	if (p == 0) for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i + 1);
	else if (p == 1) b.assign(n, (uint8_t)n);
	else if (p == 2) b[n - 1] = (uint8_t)n;
	else b[0] = 0x80;
	return b;
}
// where the padding starts in a block, or the block's end if there is none that is well formed
static size_t contentOf(unsigned p, const Bytes& blk)
{
	size_t n = blk.size();
	if (p == 3)
	{
		size_t i = n; while (i > 0 && blk[i - 1] == 0) --i;
		return i > 0 && blk[i - 1] == 0x80 ? i - 1 : n;
	}
	size_t k = blk[n - 1];
	if (k == 0 || k > n) return n;
	return Bytes(blk.end() - k, blk.end()) == padOf(p, k) ? n - k : n;
}
static Bytes nastyBlock(unsigned p, Rng& r, size_t n)
{
	// blocks that nearly are padding
	Bytes b = r.bytes(n);
	size_t k = r.chance(25) ? n : r.range(1, n);
	Bytes q = padOf(p, k); std::copy(q.begin(), q.end(), b.end() - k);
	unsigned w = r.below(10);
	if (w < 3) return b;
	if (w < 6) b[n - 1 - r.below(k)] ^= (uint8_t)(1 << r.below(8));
	else if (w == 6) b[n - k] = r.next();
	else if (w == 7) b[n - 1] = (uint8_t)r.pick(std::vector<int>{ 0, 1, (int)n, (int)n + 1, 128, 255 });
	else if (w == 8) { b.assign(n, 0); if (r.chance(50)) b[r.below(n)] = 0x80; }
	else b = r.bytes(n);
	return b;
}
static void padding(Rng& r)
{
	unsigned p = r.below(4);
	std::unique_ptr<Cipher::Block::Padding::IPadding> g(Helper::PaddingFromName::GetInstance(PADS[p]));
	std::string nm = PADN[p];
	expect(g->Enumeral() == PADS[p] && g->Name() == nm, "padding:name:" + nm, "%d, %s", (int)g->Enumeral(), g->Name().c_str());
	size_t n = r.chance(60) ? 16 : r.range(1, 64);
	// added where asked, removed where added
	{
		size_t before = r.chance(50) ? 0 : r.below(20), after = r.chance(50) ? 0 : r.below(20), k = r.range(1, n);
		Bytes b = r.bytes(before + n + after), want = b;
		Bytes q = padOf(p, k); std::copy(q.begin(), q.end(), want.begin() + before + n - k);
		std::vector<uint8_t> v = b;
		g->AddPadding(v, before + n - k, before + n);
		std::string ctx = strf("%zu bytes of padding in a block of %zu at %zu", k, n, before);
		same("padding:add:" + nm, v, want, ctx);
		size_t at = g->GetBlockLength(v, before, before + n);
		expect(at == before + n - k, "padding:remove:" + nm, "content ends at %zu; %s", at, ctx.c_str());
		if (before == 0) { v.resize(n); at = g->GetBlockLength(v); expect(at == n - k, "padding:remove:" + nm, "content ends at %zu; %s", at, ctx.c_str()); }
	}
	// only well-formed padding is removed
	for (int i = 0; i < 6; ++i)
	{
		Bytes blk = nastyBlock(p, r, n);
		size_t want = contentOf(p, blk), at = g->GetBlockLength(blk);
		if (!expect(at == want, "padding:malformed:" + nm, "content of %s ends at %zu, not %zu", hex(blk, 64).c_str(), at, want)) break;
		size_t before = r.below(20); Bytes b = r.bytes(before), t = r.bytes(r.below(9));
		if (p != 3 && before && r.chance(50)) { Bytes q = padOf(p, before); b = q; }
		b.insert(b.end(), blk.begin(), blk.end()); b.insert(b.end(), t.begin(), t.end());
		at = g->GetBlockLength(b, before, before + n);
		if (!expect(at == before + want, "padding:malformed:" + nm, "content of %s at %zu ends at %zu, not %zu", hex(blk, 64).c_str(), before, at, before + want)) break;
		seen("padding " + nm, mix(hash(blk) ^ want));
	}
	std::vector<uint8_t> v = r.bytes(n), w = v;
	expect(outcome([&] { g->AddPadding(v, 0, n + 1); }) == Threw && v == w, "padding:range:" + nm, "padding beyond the array");
	expect(outcome([&] { g->AddPadding(v, n, n); }) == Threw && v == w, "padding:range:" + nm, "no room for padding");
	expect(outcome([&] { g->AddPadding(v, n, r.below(n)); }) == Threw && v == w, "padding:range:" + nm, "an inverted range");
	expect(outcome([&] { g->GetBlockLength(v, 0, n + 1); }) == Threw && outcome([&] { g->GetBlockLength(v, n, n); }) == Threw && (p == 3 || outcome([&] { g->GetBlockLength(std::vector<uint8_t>()); }) == Threw), "padding:range:" + nm, "a block outside the array");
}

// ---- byte streams against an array and a position ----
struct Model { Bytes d; size_t pos = 0; };
static std::string dir()
{
	static std::string d;
	if (d.empty()) { char t[] = "/tmp/verif-io-XXXXXX"; d = mkdtemp(t); atexit([] { for (const char* f : { "a", "b", "c" }) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); }); }
	return d;
}
static Bytes fileBytes(const std::string& f) { std::ifstream i(f, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static void writeFile(const std::string& f, const Bytes& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write((const char*)b.data(), b.size()); }

// one random operation on stream and model; false after a difference
static bool step(const std::string& k, IByteStream& s, Model& m, Rng& r, bool canWrite, bool canSeek, bool append, size_t big)
{
	unsigned w = r.below(100);
	std::string ctx = strf("length %zu, position %zu", m.d.size(), m.pos);
	size_t left = m.pos < m.d.size() ? m.d.size() - m.pos : 0;
	auto len = [&] { return r.chance(60) ? r.range(1, 40) : r.chance(60) ? r.below(left + 5) : r.below(big); };
	if (w < 25)
	{
		size_t off = r.chance(50) ? 0 : r.below(30), n = len(), pad = r.chance(50) ? 0 : r.below(30), got = std::min(n, left);
		Bytes fill = r.bytes(1); std::vector<uint8_t> o(off + n + pad, fill[0]);
		size_t res = s.Read(o, off, n);
		Bytes want(o.size(), fill[0]); std::copy(m.d.begin() + std::min(m.pos, m.d.size()), m.d.begin() + std::min(m.pos, m.d.size()) + got, want.begin() + off);
		m.pos += got;
		return expect(res == got, k + ":Read-count", "%zu of %zu; %s", res, n, ctx.c_str()) && same(k + ":Read", o, want, strf("%zu bytes at %zu; %s", n, off, ctx.c_str()));
	}
	if (w < 35)
	{
		uint8_t v = 0; std::string e;
		Outcome o = outcome([&] { v = s.ReadByte(); }, &e);
		if (!left) return expect(o == Threw, k + ":ReadByte-end", "%s; %s", o == Returned ? "returned" : e.c_str(), ctx.c_str());
		return expect(o == Returned && v == m.d[m.pos++], k + ":ReadByte", "%02x %s; %s", v, e.c_str(), ctx.c_str());
	}
	if (w < 38 && left > 1)
	{
		std::vector<uint8_t> o(r.below(left - 1)); Bytes was = o;
		return expect(outcome([&] { s.Read(o, 0, left); }) == Threw, k + ":Read-small", "into %zu of %zu bytes; %s", o.size(), left, ctx.c_str());
	}
	if (w < 65 && canWrite)
	{
		size_t off = r.below(20), n = std::max<size_t>(1, len()), pad = r.below(20);
		Bytes in = r.bytes(off + n + pad);
		bool one = r.chance(25);
		if (append) m.pos = m.d.size();
		if (one) { n = 1; s.WriteByte(in[off]); } else s.Write(in, off, n);
		if (m.d.size() < m.pos + n) m.d.resize(m.pos + n);
		std::copy(in.begin() + off, in.begin() + off + n, m.d.begin() + m.pos);
		m.pos += n;
	}
	else if (w < 67 && canWrite)
	{
		Bytes in = r.bytes(5);
		if (!expect(outcome([&] { s.Write(in, r.range(1, 5), 5); }) == Threw, k + ":Write-small", "accepted")) return false;
	}
	else if (w < 82 && canSeek)
	{
		SeekOrigin o = r.pick(std::vector<SeekOrigin>{ SeekOrigin::Begin, SeekOrigin::Current, SeekOrigin::End });
		size_t at = r.chance(90) ? r.below(m.d.size() + 1) : m.d.size() + r.below(50);
		if (o == SeekOrigin::Current && at < m.pos) o = SeekOrigin::Begin;
		if (o == SeekOrigin::End && at > m.d.size()) { return expect(outcome([&] { s.Seek(m.d.size() + r.range(1, 9), o); }) == Threw && s.Position() == m.pos, k + ":Seek-before", "%s", ctx.c_str()); }
		s.Seek(o == SeekOrigin::Begin ? at : o == SeekOrigin::Current ? at - m.pos : m.d.size() - at, o);
		m.pos = at;
	}
	else if (w < 87 && canWrite && !append)
	{
		size_t n = r.chance(50) ? r.below(m.d.size() + 1) : m.d.size() + r.below(r.chance(80) ? 60 : big);
		s.SetLength(n); m.d.resize(n, 0); m.pos = std::min(m.pos, n);
		ctx += strf(", SetLength %zu", n);
	}
	else if (w < 95)
	{
		size_t was = m.pos;
		MemoryStream t;
		if (!m.d.empty())
		{
			s.CopyTo(&t);
			if (!same(k + ":CopyTo", t.ToArray(), m.d, ctx)) return false;
			if (!expect(s.Position() == was, k + ":CopyTo-position", "moved to %llu; %s", (unsigned long long)s.Position(), ctx.c_str())) return false;
		}
	}
	return expect(s.Length() == m.d.size(), k + ":Length", "%llu, not %zu; %s", (unsigned long long)s.Length(), m.d.size(), ctx.c_str()) && expect(s.Position() == m.pos, k + ":Position", "%llu, not %zu; %s", (unsigned long long)s.Position(), m.pos, ctx.c_str());
}
static void memory(Rng& r)
{
	Model m; std::unique_ptr<MemoryStream> s;
	unsigned w = r.below(4);
	if (w == 0) s.reset(new MemoryStream());
	else if (w == 1) s.reset(new MemoryStream((size_t)r.below(200)));
	else if (w == 2) { m.d = r.bytes(r.below(300)); s.reset(new MemoryStream(m.d)); }
	else
	{
		Bytes b = r.bytes(r.below(300)); size_t o = r.below(b.size() + 1), n = r.below(b.size() - o + 1);
		s.reset(new MemoryStream(b, o, n)); m.d = ref::sub(b, o, n);
		expect(outcome([&] { MemoryStream t(b, o, b.size() - o + 1); }) == Threw, "memory:range", "accepted");
	}
	for (size_t i = 0, n = r.range(5, 80); i < n; ++i)
	{
		if (!step("memory", *s, m, r, true, true, false, 3000)) return;
		if (r.chance(3) && !same("memory:ToArray", s->ToArray(), m.d, "")) return;
		if (r.chance(2)) { MemoryStream c(*s); Bytes was = m.d; uint8_t x = (uint8_t)r.next(); c.Seek(0, SeekOrigin::Begin); c.WriteByte(x); if (!same("memory:copy", s->ToArray(), was, "changed by its copy")) return; }
		if (r.chance(2)) { r.chance(50) ? s->Reset() : s->Close(); m = Model(); if (!expect(s->Length() == 0 && s->Position() == 0, "memory:Reset", "not empty")) return; }
	}
	same("memory:ToArray", s->ToArray(), m.d, "");
	seen("memory stream", hash(m.d) ^ m.pos);
}
// does the block of memory hold a window of the other?
static void secure(Rng& r)
{
	Model m; std::unique_ptr<SecureStream> s;
	unsigned w = r.below(4); uint64_t salt = r.chance(30) ? 0 : r.chance(50) ? r.range(1, 64) : r.next();
	std::string e;
	Outcome o = outcome([&] {
		if (w == 0) s.reset(new SecureStream());
		else if (w == 1) s.reset(new SecureStream((size_t)r.below(200), salt));
		else if (w == 2) { m.d = r.bytes(r.below(300)); s.reset(new SecureStream(m.d, salt)); }
		else { Bytes b = r.bytes(r.below(300)); size_t q = r.below(b.size() + 1), n = r.below(b.size() - q + 1); s.reset(new SecureStream(b, q, n, salt)); m.d = ref::sub(b, q, n); }
	}, &e);
	if (!expect(o == Returned, "secure:constructor", "salt %llx: %s", (unsigned long long)salt, e.c_str())) return;
	for (size_t i = 0, n = r.range(5, 30); i < n; ++i)
	{
		if (!step("secure", *s, m, r, true, true, false, 1500)) return;
		if (r.chance(10) && !same("secure:ToArray", s->ToArray(), m.d, "")) return;
		if (r.chance(2)) { r.chance(50) ? s->Reset() : s->Close(); m = Model(); if (!expect(s->Length() == 0 && s->Position() == 0, "secure:Reset", "not empty")) return; }
	}
	same("secure:ToArray", s->ToArray(), m.d, "");
	seen("secure stream", hash(m.d) ^ m.pos);
}
static void file(Rng& r)
{
	std::string f = dir() + "/a";
	Bytes old = r.bytes(r.chance(30) ? 0 : r.chance(70) ? r.below(600) : r.chance(50) ? 4096 * r.range(1, 3) : r.below(20000));
	bool exists = r.chance(80);
	if (exists) writeFile(f, old); else { unlink(f.c_str()); old.clear(); }
	FileStream::FileAccess a = r.pick(std::vector<FileStream::FileAccess>{ FileStream::FileAccess::ReadWrite, FileStream::FileAccess::ReadWrite, FileStream::FileAccess::Read, FileStream::FileAccess::Write });
	FileStream::FileModes md = FileStream::FileModes::Binary;
	if (a != FileStream::FileAccess::Read) md = r.pick(std::vector<FileStream::FileModes>{ FileStream::FileModes::Binary, FileStream::FileModes::Binary, FileStream::FileModes::Append, FileStream::FileModes::Truncate, FileStream::FileModes::AtEnd });
	else if (r.chance(20)) md = FileStream::FileModes::AtEnd;
	std::unique_ptr<FileStream> s; std::string e;
	std::string ctx = strf("access %d mode %d %s file of %zu bytes", (int)a, (int)md, exists ? "existing" : "new", old.size());
	Outcome o = outcome([&] { s.reset(new FileStream(f, a, md)); }, &e);
	if (a == FileStream::FileAccess::Read && !exists) { expect(o == Threw, "file:absent", "%s", e.c_str()); return; }
	if (!expect(o == Returned, "file:open", "%s: %s", e.c_str(), ctx.c_str())) return;
	Model m;
	bool keep = md == FileStream::FileModes::Append || (a != FileStream::FileAccess::Write && md != FileStream::FileModes::Truncate);
	if (keep) m.d = old;
	if (md == FileStream::FileModes::AtEnd) m.pos = m.d.size();
	bool rd = a != FileStream::FileAccess::Write, wr = a != FileStream::FileAccess::Read;
	expect(s->CanRead() == rd && s->CanWrite() == wr && s->FileName() == f && s->Access() == a && s->FileMode() == md, "file:properties", "%s", ctx.c_str());
	if (!expect(s->Length() == m.d.size() && s->Position() == m.pos, "file:opened", "length %llu, position %llu; %s", (unsigned long long)s->Length(), (unsigned long long)s->Position(), ctx.c_str())) return;
	for (size_t i = 0, n = r.range(3, 50); i < n; ++i)
	{
		if (rd) { if (!step("file", *s, m, r, wr, true, md == FileStream::FileModes::Append, 9000)) { sample(ctx); return; } }
		else
		{
			Bytes in = r.bytes(r.range(1, r.chance(80) ? 60 : 9000));
			if (md == FileStream::FileModes::Append) m.pos = m.d.size();
			s->Write(in, 0, in.size()); if (m.d.size() < m.pos + in.size()) m.d.resize(m.pos + in.size()); std::copy(in.begin(), in.end(), m.d.begin() + m.pos); m.pos += in.size();
			if (md != FileStream::FileModes::Append && r.chance(30)) { m.pos = r.below(m.d.size() + 1); s->Seek(m.pos, SeekOrigin::Begin); }
		}
		if (r.chance(10)) { s->Flush(); if (!same("file:Flush", fileBytes(f), m.d, ctx)) return; }
		if (r.chance(3)) { s->Reset(); m.pos = 0; }
	}
	Bytes all = m.d;
	if (r.chance(50)) s->Close();
	s.reset();
	same("file:content", fileBytes(f), all, ctx);
	expect(FileStream::FileExists(f) && FileStream::FileSize(f) == all.size(), "file:size", "%s", ctx.c_str());
	seen("file stream", hash(all) ^ m.pos);
	unlink(f.c_str());
}
// integers and arrays written and read back
static void readwrite(Rng& r)
{
	Bytes pre = r.bytes(r.below(40)), want = pre;
	std::unique_ptr<StreamWriter> w(r.chance(50) ? new StreamWriter(pre) : new StreamWriter((size_t)pre.size()));
	if (want != w->Generate()) want.assign(pre.size(), 0);
	std::vector<std::pair<int, uint64_t>> log; size_t pos = 0;
	auto put = [&](const Bytes& b) { if (want.size() < pos + b.size()) want.resize(pos + b.size()); std::copy(b.begin(), b.end(), want.begin() + pos); pos += b.size(); };
	for (size_t i = 0, n = r.range(1, 30); i < n; ++i)
	{
		uint64_t v = r.chance(20) ? (r.chance(50) ? 0 : ~0ull) : r.next();
		switch (r.below(7))
		{
			case 0: w->Write<uint8_t>((uint8_t)v); put(ref::leb(v, 1)); log.push_back({ 1, v }); break;
			case 1: w->Write<uint16_t>((uint16_t)v); put(ref::leb(v, 2)); log.push_back({ 2, v }); break;
			case 2: w->Write<uint32_t>((uint32_t)v); put(ref::leb(v, 4)); log.push_back({ 4, v }); break;
			case 3: w->Write<uint64_t>(v); put(ref::leb(v, 8)); log.push_back({ 8, v }); break;
			case 4: { Bytes b = r.bytes(r.range(1, 30)); w->Write<uint8_t>(std::vector<uint8_t>(b)); put(b); for (auto x : b) log.push_back({ 1, x }); break; }
			case 5: { std::vector<uint32_t> b; for (size_t j = 0, c = r.range(1, 9); j < c; ++j) { b.push_back((uint32_t)r.next()); log.push_back({ 4, b.back() }); } w->Write<uint32_t>(b); for (auto x : b) put(ref::leb(x, 4)); break; }
			default: { std::vector<uint64_t> b; for (size_t j = 0, c = r.range(1, 9); j < c; ++j) { b.push_back(r.next()); log.push_back({ 8, b.back() }); } w->Write<uint64_t>(b); for (auto x : b) put(ref::leb(x, 8)); break; }
		}
		if (!expect(w->Position() == pos && w->Length() == want.size(), "writer:position", "%zu of %zu, not %zu of %zu", w->Position(), w->Length(), pos, want.size())) return;
	}
	if (!same("writer:content", w->Generate(), want, "")) return;
	std::unique_ptr<MemoryStream> s(w->GetStream());
	want.resize(pos);
	if (!same("writer:stream", s->ToArray(), want, "")) return;
	StreamReader q(*s);
	for (size_t i = 0; i < log.size(); ++i)
	{
		uint64_t v = 0; int k = log[i].first;
		if (k == 1) v = r.chance(50) ? q.ReadByte() : q.ReadBytes(1)[0]; else if (k == 2) v = q.ReadInt<uint16_t>(); else if (k == 4) v = q.ReadInt<uint32_t>(); else v = q.ReadInt<uint64_t>();
		uint64_t x = k == 8 ? log[i].second : log[i].second & ((1ull << 8 * k) - 1);
		if (!expect(v == x, "reader:value", "%llx, not %llx, of %d bytes", (unsigned long long)v, (unsigned long long)x, k)) return;
	}
	expect(q.Position() == pos && q.Length() == pos, "reader:position", "%zu of %zu", q.Position(), q.Length());
	seen("reader and writer", hash(want));
}

// ---- processors ----
// a stream that breaks off: the processor has to be as good as new afterwards
class Breaking final : public IByteStream
{
	MemoryStream m_s; uint64_t m_limit;
public:
	Breaking(const Bytes& b, uint64_t limit) : m_s(b), m_limit(limit) {}
	const bool CanRead() override { return true; } const bool CanSeek() override { return true; } const bool CanWrite() override { return false; }
	const StreamModes Enumeral() override { return m_s.Enumeral(); } const uint64_t Length() override { return m_s.Length(); } const std::string Name() override { return "Breaking"; }
	const uint64_t Position() override { return m_s.Position(); } void Close() override {} void CopyTo(IByteStream* d) override { m_s.CopyTo(d); } void Destroy() override {}
	size_t Read(std::vector<uint8_t>& o, size_t at, size_t n) override { if (m_s.Position() + n > m_limit) throw std::runtime_error("broken"); return m_s.Read(o, at, n); }
	uint8_t ReadByte() override { return m_s.ReadByte(); } void Reset() override { m_s.Reset(); } void Seek(uint64_t a, SeekOrigin b) override { m_s.Seek(a, b); } void SetLength(uint64_t) override {}
	void Write(const std::vector<uint8_t>&, size_t, size_t) override {} void WriteByte(uint8_t) override {}
};
struct Source { std::unique_ptr<IByteStream> s; size_t at; };
// a stream positioned before the message
static std::unique_ptr<IByteStream> sourceOf(Rng& r, const Bytes& m, std::string& ctx)
{
	size_t before = r.chance(60) ? 0 : r.range(1, 50);
	Bytes b = r.bytes(before); b.insert(b.end(), m.begin(), m.end());
	std::unique_ptr<IByteStream> s; unsigned w = r.below(10);
	if (w < 6) s.reset(new MemoryStream(b)); else if (w < 7 && b.size() < 3000) s.reset(new SecureStream(b)); else { writeFile(dir() + "/b", b); s.reset(new FileStream(dir() + "/b", FileStream::FileAccess::Read)); }
	s->Seek(before, SeekOrigin::Begin);
	ctx += strf(" from %s at %zu", s->Name().c_str(), before);
	return s;
}
struct Sink { std::unique_ptr<IByteStream> s; Bytes head; int kind; };
static Sink sinkOf(Rng& r, std::string& ctx)
{
	Sink k; k.kind = r.below(10); size_t before = r.chance(60) ? 0 : r.range(1, 50), after = r.chance(60) ? 0 : r.range(1, 300);
	k.head = r.bytes(before); Bytes b = k.head, t = r.bytes(after); b.insert(b.end(), t.begin(), t.end());
	if (k.kind < 7) k.s.reset(new MemoryStream(b)); else { writeFile(dir() + "/c", b); k.s.reset(new FileStream(dir() + "/c", FileStream::FileAccess::ReadWrite)); }
	k.s->Seek(before, SeekOrigin::Begin);
	ctx += strf(" to %s at %zu of %zu", k.s->Name().c_str(), before, b.size());
	return k;
}
static Bytes drained(Sink& k)
{
	if (k.kind < 7) return static_cast<MemoryStream*>(k.s.get())->ToArray();
	k.s->Close(); return fileBytes(dir() + "/c");
}
struct CDef { const char* name; BlockCiphers e; bool isAes; ref::Ext ext; };
static const std::vector<CDef> CIPHERS = { { "AES", BlockCiphers::AES, true, ref::None }, { "Serpent", BlockCiphers::Serpent, false, ref::None }, { "RHXH256", BlockCiphers::RHXH256, true, ref::HKDF256 }, { "SHXS512", BlockCiphers::SHXS512, false, ref::SHAKE512 } };
static const CipherModes MODEE[] = { CipherModes::ECB, CipherModes::CBC, CipherModes::CFB, CipherModes::OFB, CipherModes::CTR, CipherModes::ICM };
static const char* MODEN[] = { "ECB", "CBC", "CFB", "OFB", "CTR", "ICM" };
static Bytes direct(int md, const ref::Block& b, bool enc, const Bytes& iv, const Bytes& in)
{
	switch (md) { case 0: return ref::ecb(b, enc, in); case 1: return ref::cbc(b, enc, iv, in); case 2: return ref::cfb(b, enc, iv, in, 16); case 3: return ref::ofb(b, iv, in); case 4: return ref::ctr(b, iv, in, false); default: return ref::ctr(b, iv, in, true); }
}
static void cipher(Rng& r)
{
	const CDef& d = r.pick(CIPHERS); int md = r.below(6); unsigned pd = r.below(4); bool counter = md >= 4;
	unsigned how = r.below(4);
	std::unique_ptr<CipherStream> c;
	std::string grp = std::string("cipherstream:") + MODEN[md], base = strf("%s-%s", d.name, MODEN[md]);
	if (how == 0 && md >= 1) { c.reset(new CipherStream(Helper::CipherModeFromName::GetInstance(d.e, MODEE[md]), counter ? nullptr : Helper::PaddingFromName::GetInstance(PADS[pd]))); }
	else if (how == 1) { c.reset(new CipherStream(Helper::CipherModeFromName::GetInstance(d.e, MODEE[md]))); pd = 2; }
	else c.reset(new CipherStream(d.e, MODEE[md], counter ? PaddingModes::None : PADS[pd]));
	if (!counter) base += std::string("-") + PADN[pd];
	{ MemoryStream i(Bytes(5)), o; std::vector<uint8_t> v(16); expect(outcome([&] { c->Write(&i, &o); }) == Threw && outcome([&] { c->Write(v, 0, v, 0); }) == Threw, grp + ":uninitialised", "worked without a key"); }
	for (int round = 0; round < 3; ++round)
	{
		auto lks = r.pick(c->LegalKeySizes()); size_t ks = lks.KeySize();
		Bytes key = r.bytes(ks), iv = r.bytes(16);
		if (r.chance(30)) for (size_t i = 4; i < 16; ++i) iv[i] = 0xFF;
		SymmetricKey kp(key, md == 0 ? Bytes() : iv);
		ref::Block b = ref::block(d.isAes, d.ext, key, {});
		bool par = md != 3 && r.chance(40);
		c->IsParallel() = par;
		if (par) { size_t procs = c->ParallelProfile().ProcessorCount(); if (procs >= 2) c->ParallelMaxDegree(std::min<size_t>(procs / 2 * 2, 2 * r.range(1, 4))); c->ParallelProfile().SetBlockSize(c->ParallelProfile().ParallelMinimumSize() * r.range(1, 3)); }
		size_t prl = par ? c->ParallelBlockSize() : 64;
		size_t n = r.chance(30) ? r.range(1, 70) : r.chance(30) ? 16 * r.range(1, 30) : r.chance(50) ? prl * r.range(1, 3) + (r.chance(50) ? 0 : r.below(2 * prl)) : prl * r.range(1, 2) - r.below(20);
		if (n > 60000) n = 60000 - r.below(100);
		if (n == 0) n = 1;
		Bytes m = r.bytes(n), pm = m;
		if (!counter && n >= 16 && r.chance(30)) { Bytes e = nastyBlock(pd, r, 16); std::copy(e.begin(), e.end(), m.end() - 16); pm = m; }
		if (!counter) { Bytes q = padOf(pd, 16 - n % 16); pm.insert(pm.end(), q.begin(), q.end()); }
		Bytes ct = direct(md, b, true, iv, pm);
		std::string ctx = base + strf(" message of %zu, %s block %zu", n, par ? "parallel" : "sequential", prl);
		for (int dirn = 0; dirn < 2; ++dirn)
		{
			bool enc = dirn == 0; const Bytes& in = enc ? m : ct; const Bytes& want = enc ? ct : m;
			const char* dn = enc ? "encrypt" : "decrypt";
			c->Initialize(enc, kp);
			std::string how = ctx;
			if (r.chance(50))
			{
				auto src = sourceOf(r, in, how); Sink k = sinkOf(r, how);
				Bytes w = k.head; w.insert(w.end(), want.begin(), want.end());
				c->Write(src.get(), k.s.get());
				if (!expect(src->Position() == src->Length(), grp + ":consumed", "%s", how.c_str())) return;
				if (!same(grp + ":stream-" + dn, drained(k), w, how)) return;
			}
			else
			{
				size_t io = r.chance(50) ? 0 : r.below(40), oo = r.chance(50) ? 0 : r.below(40);
				Bytes x = r.bytes(io); x.insert(x.end(), in.begin(), in.end());
				size_t osz = counter ? oo + want.size() + (r.chance(50) ? 0 : r.below(40)) : oo + (r.chance(50) ? in.size() : r.chance(50) ? want.size() : r.below(want.size() + 60));
				Bytes o = r.bytes(osz), w = o;
				std::vector<uint8_t> out = o;
				if (w.size() < oo + want.size()) w.resize(oo + want.size()); std::copy(want.begin(), want.end(), w.begin() + oo);
				if (!counter) w.resize(oo + want.size());
				how += strf(" array at %zu, output of %zu at %zu", io, osz, oo);
				c->Write(x, io, out, oo);
				if (!same(grp + ":array-" + dn, out, w, how)) return;
			}
			seen(base, hash(want));
		}
		// what is not a cipher-text of this mode
		if (!counter)
		{
			c->Initialize(false, kp);
			Bytes x = ct; x.resize(ct.size() - r.range(1, 15)); std::vector<uint8_t> o(x.size() + 16); MemoryStream i(x), q;
			expect(outcome([&] { c->Write(x, 0, o, 0); }) == Threw && outcome([&] { c->Write(&i, &q); }) == Threw && q.Length() == 0, grp + ":partial", "decrypted %zu bytes", x.size());
		}
		else
		{
			std::vector<uint8_t> o(n - 1);
			expect(outcome([&] { c->Write(m, 0, o, 0); }) == Threw, grp + ":small", "%zu bytes into %zu", n, o.size());
		}
		std::vector<uint8_t> o(16); MemoryStream e, q;
		expect(outcome([&] { c->Write(m, n, o, 0); }) == Threw && outcome([&] { c->Write(&e, &q); }) == Threw, grp + ":empty", "no input was accepted");
		Bytes bad = r.bytes(ks + 1); SymmetricKey bk(bad, iv);
		expect(outcome([&] { c->Initialize(true, bk); }) == Threw, grp + ":key", "a key of %zu bytes", bad.size());
	}
}
static const std::vector<Macs> MACS = { Macs::CMAC, Macs::HMACSHA2256, Macs::HMACSHA2512, Macs::KMAC256, Macs::KMAC512, Macs::KPA128, Macs::KPA256, Macs::KPA512, Macs::Poly1305 };
static void mac(Rng& r)
{
	Macs e = r.pick(MACS);
	std::unique_ptr<Mac::IMac> g(Helper::MacFromName::GetInstance(e));
	std::unique_ptr<MacStream> s(r.chance(50) ? new MacStream(e) : new MacStream(Helper::MacFromName::GetInstance(e)));
	std::string nm = g->Name(), grp = "macstream:" + nm;
	expect(outcome([&] { s->Compute(Bytes(5), 0, 5); }) == Threw, grp + ":uninitialised", "worked without a key");
	for (int round = 0; round < 3; ++round)
	{
		auto ks = r.pick(g->LegalKeySizes());
		Bytes key = r.bytes(ks.KeySize()); SymmetricKey kp(key);
		size_t n = r.chance(10) ? 0 : r.length(g->BlockSize(), 12);
		Bytes m = r.bytes(n); std::vector<uint8_t> want(g->TagSize());
		g->Initialize(kp); g->Compute(m, want);
		s->Initialize(kp);
		std::string ctx = strf("message of %zu", n);
		if (r.chance(30)) { Bytes b = r.bytes(r.range(1, 400)); Breaking src(b, r.below(b.size())); if (!expect(outcome([&] { s->Compute(&src); }) != Returned, grp + ":broken", "a stream that fails gave a code")) return; s->Initialize(kp); ctx += " after a stream that broke off"; count("broken streams"); }
		if (n && r.chance(50)) { auto src = sourceOf(r, m, ctx); if (!sameV(grp + ":stream", s->Compute(src.get()), want, ctx)) return; if (!expect(src->Position() == src->Length(), grp + ":consumed", "%s", ctx.c_str())) return; }
		else
		{
			size_t io = r.below(60), pad = r.below(60); Bytes x = r.bytes(io), t = r.bytes(pad); x.insert(x.end(), m.begin(), m.end()); x.insert(x.end(), t.begin(), t.end());
			ctx += strf(" at %zu of %zu", io, x.size());
			if (!sameV(grp + ":array", s->Compute(x, io, n), want, ctx)) return;
			s->Initialize(kp);
			expect(outcome([&] { s->Compute(x, io, x.size() - io + 1); }) == Threw && outcome([&] { s->Compute(x, x.size() + 1, 0); }) == Threw, grp + ":range", "accepted");
		}
		seen(nm, hash(want));
	}
}
static const std::vector<Digests> DGS = { Digests::Blake256, Digests::Blake512, Digests::SHA2256, Digests::SHA2512, Digests::SHA3256, Digests::SHA3512, Digests::Skein256, Digests::Skein512, Digests::Skein1024 };
static void digest(Rng& r)
{
	Digests e = r.pick(DGS); bool par = r.chance(40);
	std::unique_ptr<Digest::IDigest> g(Helper::DigestFromName::GetInstance(e, par));
	Digest::IDigest* own = r.chance(50) ? nullptr : Helper::DigestFromName::GetInstance(e, par);
	// a digest that has been used before
	if (own && r.chance(40)) own->Update(r.bytes(300), 0, r.range(1, 300));
	std::unique_ptr<DigestStream> s(own ? new DigestStream(own) : new DigestStream(e, par));
	std::string nm = g->Name(), grp = "digeststream:" + nm;
	for (int round = 0; round < 3; ++round)
	{
		if (par) { size_t b = g->ParallelProfile().ParallelMinimumSize() * r.range(1, 3); g->ParallelProfile().SetBlockSize(b); s->ParallelProfile().SetBlockSize(b); }
		size_t n = r.chance(10) ? 0 : par ? (r.chance(50) ? g->ParallelBlockSize() * r.range(1, 3) + (r.chance(50) ? 0 : r.below(3000)) : r.below(4 * g->ParallelBlockSize())) : r.length(g->BlockSize(), 12);
		Bytes m = r.bytes(n); std::vector<uint8_t> want(g->DigestSize());
		g->Reset(); g->Update(m, 0, n); g->Finalize(want, 0);
		std::string ctx = strf("message of %zu%s", n, par ? strf(", parallel block %zu", g->ParallelBlockSize()).c_str() : "");
		if (r.chance(30)) { Bytes b = r.bytes(r.range(1, 400)); Breaking src(b, r.below(b.size())); if (!expect(outcome([&] { s->Compute(&src); }) != Returned, grp + ":broken", "a stream that fails gave a digest")) return; ctx += " after a stream that broke off"; count("broken streams"); }
		if (n && r.chance(50)) { auto src = sourceOf(r, m, ctx); if (!sameV(grp + ":stream", s->Compute(src.get()), want, ctx)) return; if (!expect(src->Position() == src->Length(), grp + ":consumed", "%s", ctx.c_str())) return; }
		else
		{
			size_t io = r.below(60), pad = r.below(60); Bytes x = r.bytes(io), t = r.bytes(pad); x.insert(x.end(), m.begin(), m.end()); x.insert(x.end(), t.begin(), t.end());
			ctx += strf(" at %zu of %zu", io, x.size());
			if (!sameV(grp + ":array", s->Compute(x, io, n), want, ctx)) return;
			expect(outcome([&] { s->Compute(x, io, x.size() - io + 1); }) == Threw && outcome([&] { s->Compute(x, x.size() + 1, 0); }) == Threw, grp + ":range", "accepted");
		}
		seen(nm + (par ? " tree" : ""), hash(want));
	}
}

void cases()
{
	if (part("padding")) for (size_t i = 0; i < reps(20000, 1000000); ++i) run(strf("padding#%zu", i), padding);
	if (part("memory")) for (size_t i = 0; i < reps(6000, 300000); ++i) run(strf("memory#%zu", i), memory);
	if (part("secure")) for (size_t i = 0; i < reps(600, 20000); ++i) run(strf("secure#%zu", i), secure);
	if (part("file")) for (size_t i = 0; i < reps(1500, 60000); ++i) run(strf("file#%zu", i), file);
	if (part("readwrite")) for (size_t i = 0; i < reps(4000, 200000); ++i) run(strf("readwrite#%zu", i), readwrite);
	if (part("cipher")) for (size_t i = 0; i < reps(1500, 60000); ++i) run(strf("cipher#%zu", i), cipher);
	if (part("mac")) for (size_t i = 0; i < reps(1500, 60000); ++i) run(strf("mac#%zu", i), mac);
	if (part("digest")) for (size_t i = 0; i < reps(1500, 60000); ++i) run(strf("digest#%zu", i), digest);
}
