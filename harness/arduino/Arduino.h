// A stand-in for an Arduino core that records what it is told (calls only; no behaviour of Spine is repeated here).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <map>
#include <string>
#include <vector>

// The numbers differ between cores: the AVR/SAM ones by default, the ESP32 ones with VF_CORE_ESP.
#define LOW 0x0
#define HIGH 0x1
#define INPUT 0x0
#define OUTPUT 0x1
#define INPUT_PULLUP 0x2
#if defined(VF_CORE_ESP)
#    define RISING 0x01
#    define FALLING 0x02
#    define CHANGE 0x03
#else
#    define CHANGE 1
#    define FALLING 2
#    define RISING 3
#endif
#define DEFAULT 1
#define EXTERNAL 0
#define NOT_AN_INTERRUPT -1
#ifndef min
#    define min(a, b) ((a) < (b) ? (a) : (b))
#    define max(a, b) ((a) > (b) ? (a) : (b))
#endif
#define abs(x) ((x) > 0 ? (x) : -(x))
#define constrain(x, l, h) ((x) < (l) ? (l) : ((x) > (h) ? (h) : (x)))
#define round(x) ((x) >= 0 ? (long)((x) + 0.5) : (long)((x)-0.5))

namespace fake {
struct Call {
    enum Kind { PinMode, DigitalWrite, AnalogWrite, Resolution, Attach, Detach } kind;
    long a, b;
    uint64_t at; // virtual microseconds
    void (*cb)();
};
struct Board {
    std::vector<Call> calls;
    std::map<int, int> digital, analog; // what the pins read as
    uint64_t now_us = 0;
    bool interrupts = true;
    struct Halted {};
};
Board& board();
/// interrupt numbers are not pin numbers, as on a Mega: 2->0 3->1 21->2 20->3 19->4 18->5
inline int interrupt_of(int pin) {
    switch (pin) {
    case 2: return 0;
    case 3: return 1;
    case 21: return 2;
    case 20: return 3;
    case 19: return 4;
    case 18: return 5;
    default: return NOT_AN_INTERRUPT;
    }
}
} // namespace fake
#define digitalPinToInterrupt(p) (fake::interrupt_of(p))

void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t value);
int digitalRead(uint8_t pin);
void analogWrite(uint8_t pin, int value);
void analogWriteResolution(int bits);
int analogRead(uint8_t pin);
void attachInterrupt(uint8_t interrupt, void (*callback)(), int mode);
void detachInterrupt(uint8_t interrupt);
unsigned long millis();
unsigned long micros();
void delay(unsigned long ms);
void delayMicroseconds(unsigned int us);
void noInterrupts();
void interrupts();

class Print {
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size) = 0;
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}
    size_t print(const char* s) { return write(reinterpret_cast<const uint8_t*>(s), std::char_traits<char>::length(s)); }
    size_t print(long v) { return print(std::to_string(v).c_str()); }
    size_t print(int v) { return print(std::to_string(v).c_str()); }
    size_t println(const char* s) { return print(s) + print("\r\n"); }
    size_t println(long v) { return print(v) + print("\r\n"); }
    size_t println(int v) { return print(v) + print("\r\n"); }
};
class Stream : public Print {
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long ms) { timeout = ms; }
    size_t readBytes(char* buffer, size_t length) {
        size_t n = 0;
        for (int c; n < length && (c = timed_read()) >= 0; ++n) buffer[n] = static_cast<char>(c);
        return n;
    }
    size_t readBytes(uint8_t* buffer, size_t length) { return readBytes(reinterpret_cast<char*>(buffer), length); }
    unsigned long timeout = 1000;

private:
    int timed_read() {
        int c = read();
        if (c < 0) fake::board().now_us += timeout * 1000; // nothing arrived for that long
        return c;
    }
};
class HardwareSerial : public Stream {
public:
    void begin(unsigned long b) { baud = b; }
    int available() override { return static_cast<int>(rx.size()); }
    int peek() override { return rx.empty() ? -1 : rx.front(); }
    int read() override {
        if (rx.empty()) return -1;
        int c = rx.front();
        rx.pop_front();
        return c;
    }
    int availableForWrite() override { return static_cast<int>(room); }
    size_t write(uint8_t v) override {
        if (!room) return 0;
        tx.push_back(v);
        --room;
        return 1;
    }
    size_t write(const uint8_t* buffer, size_t size) override {
        size_t n = 0;
        while (n < size && write(buffer[n])) ++n;
        return n;
    }
    void flush() override { ++flushes; }
    std::deque<uint8_t> rx;
    std::vector<uint8_t> tx;
    size_t room = SIZE_MAX;
    unsigned long baud = 0, flushes = 0;
};
extern HardwareSerial Serial;
#define ARDUINO_MOCK_ALL() (void)0
