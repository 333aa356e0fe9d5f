// Stand-in for CarloWood/threadsafe (an absent git submodule of /repo), written for /verif only.
#pragma once
#include "debug.h"
#include <atomic>
#include <mutex>
#include <thread>
class AIMutex
{
  std::mutex m_;
  std::atomic<std::thread::id> id_{};

 public:
  void lock()
  {
    m_.lock();
    id_ = std::this_thread::get_id();
  }
  bool try_lock()
  {
    bool r = m_.try_lock();
    if (r)
      id_ = std::this_thread::get_id();
    return r;
  }
  void unlock()
  {
    id_ = std::thread::id{};
    m_.unlock();
  }
  bool is_self_locked() const { return id_ == std::this_thread::get_id(); }
};
