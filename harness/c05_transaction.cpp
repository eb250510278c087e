// C05: Transaction atomicity over BufferedStream.
#include "fake_stream.hpp"
#include "spine/io/stream/buffered_stream.hpp"

using spn::io::BufferedStream;
using spn::io::Transaction;

static void run(vf::Rng& r, size_t icap, size_t ocap, int steps) {
    auto fs = std::make_shared<FakeStream>();
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = icap, .output_buffer_size = ocap, .delimiters = "\n"});
    vf::op("icap=%zu ocap=%zu", icap, ocap);
    std::string in; // bytes in the input buffer
    std::string unread; // bytes left in the stream
    std::string out; // bytes queued for output
    std::string want; // delivered
    std::optional<Transaction> t;
    std::string t_line, t_reply;
    int serial = 0;
    bool full_seen = false, aborted = false, committed = false;
    auto line = [&]() -> size_t {
        auto p = in.find('\n');
        return p == std::string::npos ? 0 : p + 1;
    };
    auto compare = [&] {
        VF_CHECK(b.input_buffer_space_used() == in.size(), "input-used", "input used %zu expected %zu", b.input_buffer_space_used(), in.size());
        VF_CHECK(b.output_buffer_space_used() == out.size(), "output-used", "output used %zu expected %zu", b.output_buffer_space_used(), out.size());
        VF_CHECK(b.length_of_next_line() == line(), "line", "next line length %zu expected %zu", b.length_of_next_line(), line());
        VF_CHECK(std::string(fs->delivered.begin(), fs->delivered.end()) == want, "delivered", "delivered bytes differ");
        if (want.size() > 5000) want.clear(), fs->delivered.clear(); // compared
        if (t && !t->is_finalized()) {
            VF_CHECK(std::string(t->incoming()) == t_line, "incoming", "incoming '%s' expected '%s'", std::string(t->incoming()).c_str(), t_line.c_str());
            VF_CHECK(t->outgoing_space_used() == t_reply.size(), "reply-used", "reply of %zu bytes, expected %zu", t->outgoing_space_used(), t_reply.size());
            VF_CHECK(t->outgoing_space_left() == ocap - out.size(), "reply-left", "reply space %zu expected %zu", t->outgoing_space_left(), ocap - out.size());
        }
    };
    auto finish_line = [&] {
        in.erase(0, line());
        t_reply.clear();
    };
    for (int i = 0; i < steps; ++i) {
        bool open = t && !t->is_finalized();
        switch (r.below(open ? 10 : 4)) {
        case 0: { // arrivals and pull: a waiting line is protected, bytes without a place stay in the stream, a line that does not fit loses its oldest bytes
            size_t n = r.chance(1, 6) ? r.below(2 * icap + 1) : r.below(icap - in.size() + 1);
            std::string s;
            for (size_t k = 0; k < n; ++k) s += r.chance(1, icap > 100 ? icap / 3 : 4) ? '\n' : r.chance(1, 10) ? static_cast<char>(r.below(256)) : static_cast<char>('a' + (serial++ % 26));
            vf::op("arrive+pull %zu", n);
            for (char c : s) fs->incoming.push_back(static_cast<uint8_t>(c));
            unread += s;
            size_t taken = 0;
            bool waiting = line() > 0;
            while (taken < unread.size() && !(waiting && in.size() == icap)) {
                if (in.size() == icap) in.erase(0, 1);
                in += unread[taken];
                waiting = waiting || unread[taken] == '\n';
                ++taken;
            }
            unread.erase(0, taken);
            VF_CHECK(b.pull_in_data() == taken, "pull", "pull count");
            if (open && !unread.empty()) VF_EV("pull.stopped.while.open");
            break;
        }
        case 1: { // output written outside of the transaction (only when none is open: abort drops the last n bytes)
            if (open) break;
            size_t n = r.below(ocap + 1);
            if (r.chance(1, 4)) n = ocap;
            n = std::min(n, ocap - out.size());
            std::string s;
            for (size_t k = 0; k < n; ++k) s += static_cast<char>('A' + (serial++ % 26));
            vf::op("write outside %zu", n);
            VF_CHECK(b.buffered_write(s) == n, "write", "buffered_write count");
            out += s;
            break;
        }
        case 2: { // flush some (keeping the bytes of an open reply, which must still be abortable)
            size_t keep = open ? t_reply.size() : 0;
            size_t n = r.below(out.size() - keep + 1);
            vf::op("flush %zu", n);
            fs->write_window = n;
            VF_CHECK(b.push_out_data() == n, "flush", "flush count");
            fs->write_window = 0;
            want += out.substr(0, n);
            out.erase(0, n);
            break;
        }
        case 3: // open
            if (!open) {
                vf::op("open");
                t.reset();
                auto nt = b.new_transaction();
                VF_CHECK(bool(nt) == (line() > 0), "open", "transaction handed out=%d, line waiting=%d", bool(nt), line() > 0);
                if (nt) {
                    VF_CHECK(!nt->is_finalized(), "open-final", "a new transaction is finalized already");
                    t.emplace(std::move(*nt));
                    VF_CHECK(!t->is_finalized(), "move", "a moved transaction lost its state");
                    VF_CHECK(nt->is_finalized(), "moved-from", "moved-from transaction is still live");
                    t_line = in.substr(0, line() - 1);
                    t_reply.clear();
                    VF_EV("open");
                } else
                    VF_EV("open.refused");
            }
            break;
        case 4:
        case 5: { // reply
            size_t left = ocap - out.size();
            size_t n = r.below(ocap + 2);
            if (vf::kDebug) { // debug builds assert that the reply fits
                if (left < 2) break;
                n = r.below(left);
            }
            std::string s;
            for (size_t k = 0; k < n; ++k) s += r.chance(1, 10) ? static_cast<char>(r.below(256)) : static_cast<char>('0' + (serial++ % 10));
            size_t fit = std::min(n, left);
            vf::op("reply %zu (fits %zu)", n, fit);
            size_t got = r.chance(1, 2) ? t->outgoing(std::string_view(s)) : t->outgoing(s.data(), s.size());
            VF_CHECK(got == fit, "reply-count", "outgoing(%zu) returned %zu with %zu left", n, got, left);
            out += s.substr(0, fit);
            t_reply += s.substr(0, fit);
            if (fit < n) VF_EV("reply.truncated");
            break;
        }
        case 6: {
            size_t left = ocap - out.size();
            if (vf::kDebug && left == 0) break;
            char c = static_cast<char>('0' + (serial++ % 10));
            vf::op("reply1");
            size_t got = t->outgoing(c);
            VF_CHECK(got == (left ? 1u : 0u), "reply1-count", "outgoing(char) returned %zu with %zu left", got, left);
            if (left) out += c, t_reply += c;
            break;
        }
        case 7: { // move construct / assign
            vf::op("move");
            Transaction moved(std::move(*t));
            VF_CHECK(t->is_finalized() && !moved.is_finalized(), "move", "move construction lost the transaction");
            VF_CHECK(moved.outgoing_space_used() == t_reply.size(), "move-reply", "queued count lost in a move");
            if (r.chance(1, 2)) *t = std::move(moved);
            else t.emplace(std::move(moved));
            VF_CHECK(!t->is_finalized(), "move-assign", "move lost the transaction");
            VF_EV("move");
            break;
        }
        case 8: { // commit or destroy
            if (out.size() == ocap) full_seen = true;
            if (r.chance(1, 2)) {
                vf::op("commit");
                t->commit();
                VF_CHECK(t->is_finalized(), "commit-final", "not finalized after commit");
            } else {
                vf::op("destroy");
                t.reset();
            }
            finish_line();
            committed = true;
            VF_EV("commit");
            break;
        }
        default: {
            vf::op("abort (reply %zu, output %zu/%zu)", t_reply.size(), out.size(), ocap);
            if (t_reply.empty() && out.size() == ocap) VF_EV("abort.empty.reply.full.output");
            if (out.size() == ocap) full_seen = true;
            t->abort();
            VF_CHECK(t->is_finalized(), "abort-final", "not finalized after abort");
            out.erase(out.size() - t_reply.size());
            finish_line();
            aborted = true;
            VF_EV("abort");
            if (r.chance(1, 2)) t.reset(); // a finalized transaction's destruction has no effect
        }
        }
        compare();
        vf::state(vf::mix(in.size() * 1000 + out.size() * 10) ^ vf::mix(icap * 100 + ocap) ^ vf::mix(t_reply.size() + (open ? 100 : 0)));
    }
    if (t && !t->is_finalized()) finish_line();
    t.reset();
    // everything that was committed reaches the peer
    vf::op("final flush");
    fs->write_window = ocap + 1;
    VF_CHECK(b.push_out_data() == out.size(), "final-count", "final flush count");
    want += out;
    out.clear();
    compare();
    if (aborted && committed && full_seen) vf::nontrivial();
}

VF_SCENARIO(small, 1.0) { run(r, static_cast<size_t>(r.range(2, 12)), static_cast<size_t>(r.range(1, 10)), 120); }
VF_SCENARIO(medium, 0.2) { run(r, static_cast<size_t>(r.range(12, 50)), static_cast<size_t>(r.range(10, 50)), 200); }
// sizes around the limits of narrower counters
VF_SCENARIO(large, 0.01) {
    auto size = [&] { return static_cast<size_t>(r.pick<vf::i64>({64, 256, 256, 600, 65536}) + r.range(-2, 30)); };
    size_t icap = size(), ocap = size();
    run(r, icap, ocap, 60);
    VF_EV("large");
}
VF_SCENARIO(long_lived, 0.002) { run(r, static_cast<size_t>(r.range(2, 20)), static_cast<size_t>(r.range(1, 20)), 8000); }

// one reply longer than a narrower counter could tell, after a line likewise
VF_SCENARIO(single_reply, 0.006) {
    size_t ocap = static_cast<size_t>(r.pick<vf::i64>({256, 1024, 65536, 65536}) + r.range(-2, 300));
    size_t len = static_cast<size_t>(r.pick<vf::i64>({3, 255, 65535}) + r.range(-2, 30));
    auto fs = std::make_shared<FakeStream>();
    BufferedStream b(fs, BufferedStream::Config{.input_buffer_size = len + 20, .output_buffer_size = ocap, .delimiters = "\n"});
    std::string line, before(r.below(20), 'b'), reply;
    for (size_t k = 0; k < len; ++k) line += static_cast<char>('a' + r.below(26));
    for (char c : line + "\nrest\n") fs->incoming.push_back(static_cast<uint8_t>(c));
    VF_CHECK(b.pull_in_data() == len + 6, "pull", "pull count");
    b.buffered_write(before);
    auto t = b.new_transaction();
    VF_CHECK(t && t->incoming() == line, "incoming", "the line of %zu bytes is not shown", len);
    size_t n = ocap - before.size() - r.below(3);
    if (!vf::kDebug && r.chance(1, 2)) n += 4; // too much by a little
    if (vf::kDebug) n = std::min(n, ocap - before.size() - 1); // the code asserts that a byte is to spare
    for (size_t k = 0; k < n; ++k) reply += static_cast<char>(r.below(256));
    size_t fits = std::min(n, ocap - before.size());
    vf::op("ocap=%zu line=%zu before=%zu outgoing(%zu)", ocap, len, before.size(), n);
    size_t got = t->outgoing(reply.data(), n);
    VF_CHECK(got == fits, "reply-count", "outgoing(%zu) returned %zu, expected %zu", n, got, fits);
    VF_CHECK(t->outgoing_space_used() == fits && t->outgoing_space_left() == ocap - before.size() - fits, "reply-used", "reply of %zu bytes, expected %zu", t->outgoing_space_used(), fits);
    bool keep = r.chance(1, 2);
    if (keep) t->commit();
    else t->abort();
    VF_CHECK(b.input_buffer_space_used() == 5, "input-used", "input used %zu expected 5", b.input_buffer_space_used());
    fs->write_window = ocap + 1;
    b.push_out_data();
    VF_CHECK(std::string(fs->delivered.begin(), fs->delivered.end()) == before + (keep ? reply.substr(0, fits) : ""), "delivered", "delivered bytes differ");
    VF_EV("single.reply");
}
VF_SCENARIO(several_ports, 0.3) {
    // transactions of several ports, handed from one variable to another: one that is assigned over ends as if it had gone out of scope
    const size_t n_ports = static_cast<size_t>(r.range(2, 3)), n_slots = static_cast<size_t>(r.range(1, 3));
    struct Port {
        std::shared_ptr<FakeStream> fs = std::make_shared<FakeStream>();
        std::unique_ptr<BufferedStream> b;
        std::deque<std::string> lines;
        std::string out;
        bool open = false;
        int serial = 0;
    };
    std::vector<Port> ports(n_ports);
    for (auto& p : ports)
        p.b = std::make_unique<BufferedStream>(p.fs, BufferedStream::Config{.input_buffer_size = 256, .output_buffer_size = 4096, .delimiters = "\n"});
    struct Slot {
        std::optional<Transaction> t;
        int port = -1; // of the open transaction
        std::string reply;
    };
    std::vector<Slot> slots(n_slots);
    auto ended = [&](Slot& s) {
        if (s.port < 0) return;
        Port& p = ports[static_cast<size_t>(s.port)];
        p.lines.pop_front();
        p.open = false;
        s.port = -1;
        s.reply.clear();
    };
    for (int i = 0, n = r.range(20, 80); i < n; ++i) {
        const size_t pi = r.below(n_ports), si = r.below(n_slots);
        Port& p = ports[pi];
        Slot& s = slots[si];
        switch (r.below(7)) {
        case 0: { // a line arrives
            if (p.lines.size() > 5) break;
            std::string l = std::string(1, static_cast<char>('a' + pi)) + std::to_string(p.serial++);
            for (char c : l + "\n") p.fs->incoming.push_back(static_cast<uint8_t>(c));
            p.lines.push_back(l);
            vf::op("line %s", l.c_str());
            p.b->pull_in_data();
            break;
        }
        case 1:
        case 2: { // a new one, over whatever the variable holds
            if (p.open || p.lines.empty()) break;
            auto nt = p.b->new_transaction();
            VF_CHECK(bool(nt), "open", "no transaction with a line waiting");
            vf::op("open p%zu s%zu%s", pi, si, s.port >= 0 ? " over another" : "");
            if (s.port >= 0) VF_EV("assigned.over.an.open.one");
            if (s.t && r.chance(2, 3)) *s.t = std::move(*nt);
            else s.t.emplace(std::move(*nt));
            ended(s);
            s.port = static_cast<int>(pi), p.open = true;
            break;
        }
        case 3: { // one variable's over another one's
            Slot& o = slots[r.below(n_slots)];
            if (&o == &s || !o.t || !s.t) break;
            vf::op("s%zu = s%zu (%s)", si, static_cast<size_t>(&o - slots.data()), o.port >= 0 ? "open" : "done");
            if (s.port >= 0) VF_EV("assigned.over.an.open.one");
            *s.t = std::move(*o.t);
            ended(s);
            std::swap(s.port, o.port), std::swap(s.reply, o.reply);
            VF_CHECK(o.t->is_finalized(), "moved-from", "a moved-from transaction is still live");
            break;
        }
        case 4: {
            if (s.port < 0) break;
            std::string x = "r" + std::to_string(i);
            vf::op("reply s%zu", si);
            VF_CHECK(s.t->outgoing(x) == x.size(), "reply-count", "a reply did not fit");
            s.reply += x, ports[static_cast<size_t>(s.port)].out += x;
            break;
        }
        case 5: {
            if (s.port < 0) break;
            vf::op("commit s%zu", si);
            s.t->commit();
            ended(s);
            break;
        }
        default: {
            if (s.port < 0) break;
            vf::op("abort s%zu", si);
            s.t->abort();
            auto& out = ports[static_cast<size_t>(s.port)].out;
            out.erase(out.size() - s.reply.size());
            ended(s);
        }
        }
        for (auto& sl : slots)
            if (sl.t) {
                VF_CHECK(sl.t->is_finalized() == (sl.port < 0), "live", "a transaction is finalized=%d, expected %d", sl.t->is_finalized(), sl.port < 0);
                if (sl.port >= 0) {
                    const auto& want = ports[static_cast<size_t>(sl.port)].lines.front();
                    VF_CHECK(std::string(sl.t->incoming()) == want, "incoming", "incoming '%s' expected '%s'", std::string(sl.t->incoming()).c_str(), want.c_str());
                    VF_CHECK(sl.t->outgoing_space_used() == sl.reply.size(), "reply-used", "reply of %zu bytes, expected %zu", sl.t->outgoing_space_used(), sl.reply.size());
                }
            }
        for (auto& q : ports) {
            size_t used = 0;
            for (auto& l : q.lines) used += l.size() + 1;
            VF_CHECK(q.b->input_buffer_space_used() == used, "input-used", "input of port %c holds %zu bytes, expected %zu", static_cast<char>('a' + (&q - ports.data())),
                     q.b->input_buffer_space_used(), used);
            VF_CHECK(q.b->output_buffer_space_used() == q.out.size(), "output-used", "output used %zu expected %zu", q.b->output_buffer_space_used(), q.out.size());
        }
    }
    for (auto& s : slots) s.t.reset(), ended(s);
    for (auto& q : ports) {
        q.fs->write_window = q.out.size();
        q.b->push_out_data();
        VF_CHECK(std::string(q.fs->delivered.begin(), q.fs->delivered.end()) == q.out, "delivered", "delivered bytes differ");
    }
    vf::nontrivial();
}
