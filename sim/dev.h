// Simulated devices: stream buffers whose delivery and failures are decided by the plan.
#pragma once
#include "plan.h"
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>

struct DevFault {
	uint64_t pos;       // device byte position at which the fault strikes
	int kind;           // 0 end-of-file / error return, 1 throw ios_base::failure, 2 throw runtime_error, 3 throw bad_alloc, 4 throw int, 5 the thread ends (pthread_exit), 6 the thread is cancelled
	int count;          // number of requests that fail before the device recovers; <0: for good
};
[[noreturn]] inline void devThrow(int kind) {
	switch (kind) {
	case 5: rt::endThread(false);
	case 6: rt::endThread(true);
	case 1: throw std::ios_base::failure("simulated device failure");
	case 2: throw std::runtime_error("simulated device failure");
	case 3: throw std::bad_alloc();
	default: throw 7;
	}
}

class SimSource : public std::streambuf {
public:
	std::string data;
	std::vector<unsigned> chunks{4096};
	bool unbuffered = false;
	int availMode = 0;                  // showmanyc: 0 unknown, 1 truthful, 2 says none (-1)
	bool putback = false;               // keeps consumed bytes available for putback
	bool seekable = false;              // like a file: can tell and change the position
	int syncMode = 0;                   // what sync() does: 0 nothing, 1 fails, 2 drops what was read ahead (as a terminal would)
	std::vector<DevFault> faults;
	uint64_t requests = 0;              // device requests
	uint64_t requestsAfterDead = 0;
	bool sawEof = false, sawError = false;
	explicit SimSource(std::string d = "") : data(std::move(d)) {}
	size_t consumed() const { return pos_ - (size_t)(egptr() - gptr()); }
	std::string rest() const { return data.substr(std::min(consumed(), data.size())); }
protected:
	size_t pos_ = 0, chunkIdx_ = 0; std::string buf_;
	size_t limit(size_t want) {
		size_t n = std::min(want, data.size() - pos_);
		for (auto & f : faults) if (f.count != 0 && f.pos > pos_) n = std::min<size_t>(n, f.pos - pos_);
		return n;
	}
	// true if bytes may be read now; otherwise end-of-file (or throws)
	bool ask() {
		++requests; rt::devRequest();
		for (auto & f : faults) if (f.count != 0 && f.pos == pos_ && pos_ <= data.size()) {
			bool dead = f.count < 0; if (f.count > 0) --f.count;
			rt::log("src fault kind %d at %zu", f.kind, pos_);
			if (dead) { ++requestsAfterDead; }
			if (f.kind == 0) { sawEof = true; rt::fired(dead ? rt::F_EOF_TRUNC : rt::F_EOF_TRANSIENT); return false; }
			sawError = true; rt::fired(dead ? rt::F_READ_ERR_DEAD : rt::F_READ_ERR_ONCE);
			devThrow(f.kind);
		}
		if (pos_ >= data.size()) { sawEof = true; ++requestsAfterDead; return false; }
		return true;
	}
	int_type underflow() override {
		rt::Harness h;
		if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (!ask()) return traits_type::eof();
		if (unbuffered) { rt::fired(rt::F_UNBUFFERED); return traits_type::to_int_type(data[pos_]); }
		size_t want = chunks.empty() ? 1 : chunks[chunkIdx_++ % chunks.size()]; if (!want) want = 1;
		size_t n = limit(want);
		if (n < data.size() - pos_) rt::fired(rt::F_SHORT_READ);
		size_t keep = putback ? std::min<size_t>(pos_, 8) : 0;
		buf_ = data.substr(pos_ - keep, keep + n) + "9";     // a digit past the end would be noticed if read
		setg(&buf_[0], &buf_[keep], &buf_[keep + n]);
		pos_ += n;
		return traits_type::to_int_type(*gptr());
	}
	int_type uflow() override {
		if (!unbuffered) return std::streambuf::uflow();
		rt::Harness h;
		if (!ask()) return traits_type::eof();
		return traits_type::to_int_type(data[pos_++]);
	}
	std::streamsize showmanyc() override {
		rt::Harness h;
		return availMode == 1 ? (std::streamsize)(data.size() - pos_) : availMode == 2 ? -1 : 0;
	}
	int_type pbackfail(int_type) override { return traits_type::eof(); }
	int sync() override {
		rt::Harness h; rt::devRequest();
		if (syncMode == 2) setg(eback(), egptr(), egptr());
		return syncMode == 1 ? -1 : 0;
	}
	std::streambuf * setbuf(char *, std::streamsize) override {
		rt::Harness h; rt::devRequest();
		if (syncMode == 2) setg(eback(), egptr(), egptr());
		return syncMode == 1 ? nullptr : this;
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
		rt::Harness h; rt::devRequest();
		if (!seekable) return pos_type(off_type(-1));
		off_type at = (dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type)consumed() : (off_type)data.size()) + off;
		if (at < 0 || at > (off_type)data.size()) return pos_type(off_type(-1));
		if (at != (off_type)consumed()) { pos_ = (size_t)at; setg(nullptr, nullptr, nullptr); }
		return pos_type(at);
	}
	pos_type seekpos(pos_type at, std::ios_base::openmode w) override { return seekoff(off_type(at), std::ios_base::beg, w); }
};

class SimSink : public std::streambuf {
public:
	std::string out;                    // bytes the device accepted
	std::vector<DevFault> faults;
	size_t bufSize = 0;
	size_t shortMax = 0;                // >0: accepts at most this many bytes per request (then is asked again)
	std::vector<DevFault> flushFaults;  // pos: index of the sync() that fails
	uint64_t requests = 0, syncs = 0, requestsAfterDead = 0;
	std::string pending() const { return pend_; }
	void discardPending() { pend_.clear(); }
	void healthy() { for (auto & f : faults) f.count = 0; for (auto & f : flushFaults) f.count = 0; }
	explicit SimSink(size_t b = 0) : bufSize(b) {}
	virtual void accepted(char const *, size_t) {}
protected:
	std::string pend_;
	// hands bytes to the device; returns how many it took
	size_t give(char const * p, size_t n) {
		size_t done = 0;
		while (done < n) {
			++requests; rt::devRequest();
			size_t m = n - done; size_t at = out.size();
			for (auto & f : faults) if (f.count != 0 && f.pos == at) {
				bool dead = f.count < 0; if (f.count > 0) --f.count; if (dead) ++requestsAfterDead;
				rt::log("sink fault kind %d at %zu", f.kind, at);
				if (f.kind == 0) { rt::fired(done ? rt::F_WRITE_SHORT : rt::F_WRITE_ERR); return done; }
				rt::fired(rt::F_WRITE_THROW); devThrow(f.kind);
			}
			for (auto & f : faults) if (f.count != 0 && f.pos > at) m = std::min<size_t>(m, f.pos - at);
			if (shortMax && m > shortMax) { m = shortMax; rt::fired(rt::F_WRITE_SHORT); }
			out.append(p + done, m); accepted(p + done, m);
			done += m;
		}
		return done;
	}
	bool flushBuf() {
		if (pend_.empty()) return true;
		std::string p = pend_; size_t before = out.size();
		try { give(p.data(), p.size()); } catch (...) { pend_ = p.substr(out.size() - before); throw; }
		size_t n = out.size() - before;
		pend_ = p.substr(n);
		return pend_.empty();
	}
	int_type overflow(int_type c) override {
		rt::Harness h;
		if (traits_type::eq_int_type(c, traits_type::eof())) return flushBuf() ? traits_type::not_eof(c) : traits_type::eof();
		char ch = traits_type::to_char_type(c);
		return put(&ch, 1) == 1 ? c : traits_type::eof();
	}
	std::streamsize xsputn(char const * s, std::streamsize n) override { rt::Harness h; return put(s, n); }
	std::streamsize put(char const * s, std::streamsize n) {
		if (n <= 0) return 0;
		if (bufSize == 0) return (std::streamsize)give(s, (size_t)n);
		std::streamsize done = 0;
		while (done < n) {
			if (pend_.size() >= bufSize && !flushBuf()) { if (pend_.size() >= bufSize) return done; }
			size_t m = std::min<size_t>((size_t)(n - done), bufSize - pend_.size());
			pend_.append(s + done, m); done += (std::streamsize)m;
		}
		return done;
	}
	int sync() override {
		rt::Harness h;
		uint64_t k = syncs++;
		++requests; rt::devRequest();
		for (auto & f : flushFaults) if (f.count != 0 && f.pos <= k) {
			if (f.count > 0) --f.count;
			rt::log("flush fault %llu", (unsigned long long)k);
			rt::fired(rt::F_FLUSH_ERR);
			if (f.kind == 0) return -1;
			devThrow(f.kind);
		}
		return flushBuf() ? 0 : -1;
	}
};
