// A stream the harness controls completely: arrival and write windows, read/write failures, full record of deliveries.
#pragma once
#include "vf.hpp"
#include "spine/io/stream/stream.hpp"

struct FakeStream : spn::io::Stream {
    // input side
    std::deque<uint8_t> incoming; // arrived, not yet read
    std::deque<int> read_script; // 0: fail the next read, 1: succeed; empty: succeed
    uint64_t reads_ok = 0, reads_failed = 0;
    // output side
    std::vector<uint8_t> delivered;
    size_t write_window = 0; // bytes the peer takes now
    std::deque<int> write_script;
    uint64_t writes_failed = 0;

    void initialize() override {}
    using Stream::read;
    using Stream::write;
    size_t read(uint8_t* buffer, size_t length) override {
        size_t n = 0;
        while (n < length && !incoming.empty() && read(buffer[n])) ++n;
        return n;
    }
    bool read(uint8_t& value) override {
        int ok = 1;
        if (!read_script.empty()) {
            ok = read_script.front();
            read_script.pop_front();
        }
        if (!ok || incoming.empty()) {
            ++reads_failed;
            return false;
        }
        value = incoming.front();
        incoming.pop_front();
        ++reads_ok;
        return true;
    }
    size_t available() const override { return incoming.size(); }
    size_t available_for_write() const override { return write_window; }
    size_t write(const uint8_t* const buffer, size_t length) override {
        size_t n = 0;
        while (n < length && write(buffer[n])) ++n;
        return n;
    }
    bool write(const uint8_t value) override {
        int ok = 1;
        if (!write_script.empty()) {
            ok = write_script.front();
            write_script.pop_front();
        }
        if (!ok || write_window == 0) {
            ++writes_failed;
            return false;
        }
        delivered.push_back(value);
        --write_window;
        return true;
    }
    void flush() override {}
};
