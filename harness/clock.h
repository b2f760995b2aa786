// A steady clock that stands still unless the harness moves it.  The definition
// in the executable takes precedence over the one in the C++ runtime library.
#pragma once
#include <chrono>
#include <dots/asio.h>

namespace vt
{
    inline std::chrono::nanoseconds fakeNow{ std::chrono::hours{ 1 } };

    // runs everything that is due at the present time
    inline void settle(boost::asio::io_context& io)
    {
        // note: the reactor looks for expired timers only when told so, which
        // a timer that expired long ago does
        for (int i = 0; i < 2; ++i)
        {
            boost::asio::steady_timer nudge{ io, std::chrono::steady_clock::time_point::min() + std::chrono::hours{ 1 } };
            bool done = false;
            nudge.async_wait([&](auto) { done = true; });
            if (io.stopped()) io.restart();
            while (!done) { io.poll(); if (io.stopped()) io.restart(); }
            io.poll();
        }
    }

    inline void advance(boost::asio::io_context& io, long ms)
    {
        fakeNow += std::chrono::milliseconds{ ms };
        settle(io);
    }
}

std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{
    return time_point{ vt::fakeNow };
}
