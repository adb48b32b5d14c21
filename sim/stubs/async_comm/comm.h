// Stand-in for the async_comm serial library (not installed here): same interface, no threads and no
// device. What the code sends goes to `on_send`; the simulator calls deliver() when its schedule says
// that bytes arrive.
#pragma once
#include <signal.h>
#include <unistd.h>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace async_comm {

class CommListener
{
 public:
    virtual ~CommListener() {}
    virtual void receive_callback(const uint8_t* buf, size_t size) = 0;
};

class Comm
{
 public:
    virtual ~Comm() {}
    bool init()
    {
        open = init_ok();
        if (on_init) on_init(*this);
        return open;
    }
    void close()
    {
        open = false;
        if (on_close) on_close(*this);
    }
    void send_bytes(const uint8_t* src, size_t len)
    {
        if (on_send) on_send(src, len);
    }
    void send_byte(uint8_t data) { send_bytes(&data, 1); }
    void register_receive_callback(std::function<void(const uint8_t*, size_t)> fun) { callback = fun; }
    void register_listener(CommListener& listener) { listeners.push_back(&listener); }

    void deliver(const uint8_t* p, size_t n)
    {
        if (callback) callback(p, n);
        for (auto* l : listeners) l->receive_callback(p, n);
    }

    virtual bool init_ok() { return true; }
    bool open = false;
    std::function<void(const uint8_t*, size_t)> on_send, callback;
    std::vector<CommListener*> listeners;
    static inline std::function<void(Comm&)> on_init, on_close;
};

}  // namespace async_comm
