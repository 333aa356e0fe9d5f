// Stand-in for CarloWood/threadsafe (an absent git submodule of /repo), written for /verif only.
// It implements just the interface that libcwd's debug.cxx and dwarf.cxx use.
#pragma once
#include <condition_variable>
#include <exception>
#include <mutex>

// A reader-preferring read/write lock with read->write upgrade.
class AIReadWriteMutex
{
  std::mutex m_;
  std::condition_variable cv_;
  int readers_ = 0;
  bool writer_ = false;
  bool upgrading_ = false;

 public:
  struct upgrade_conflict : std::exception { };

  void rdlock()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !writer_; });
    ++readers_;
  }
  void rdunlock()
  {
    std::unique_lock<std::mutex> l(m_);
    --readers_;
    cv_.notify_all();
  }
  void wrlock()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !writer_ && readers_ == 0; });
    writer_ = true;
  }
  void wrunlock()
  {
    std::unique_lock<std::mutex> l(m_);
    writer_ = false;
    cv_.notify_all();
  }
  // Called while holding a read lock. Throws when another reader is already upgrading.
  void rd2wrlock()
  {
    std::unique_lock<std::mutex> l(m_);
    if (upgrading_)
      throw upgrade_conflict();
    upgrading_ = true;
    cv_.wait(l, [this] { return !writer_ && readers_ == 1; });
    upgrading_ = false;
    readers_ = 0;
    writer_ = true;
  }
  void wr2rdlock()
  {
    std::unique_lock<std::mutex> l(m_);
    writer_ = false;
    readers_ = 1;
    cv_.notify_all();
  }
  void rd2wryield()
  {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return !upgrading_; });
  }
};
