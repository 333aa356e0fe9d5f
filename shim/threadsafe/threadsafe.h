// Stand-in for CarloWood/threadsafe (an absent git submodule of /repo), written for /verif only.
#pragma once
#include "sys.h"
#include "debug.h"
#include "utils/macros.h"
#include "AIReadWriteMutex.h"
#include <mutex>
#include <utility>

namespace threadsafe {
namespace policy {

template <typename M>
struct ReadWrite
{
  M m;
  void rdlock() { m.rdlock(); }
  void rdunlock() { m.rdunlock(); }
  void wrlock() { m.wrlock(); }
  void wrunlock() { m.wrunlock(); }
  void rd2wrlock() { m.rd2wrlock(); }
  void wr2rdlock() { m.wr2rdlock(); }
  void rd2wryield() { m.rd2wryield(); }
};

template <typename M>
struct Primitive
{
  M m;
  void rdlock() { m.lock(); }
  void rdunlock() { m.unlock(); }
  void wrlock() { m.lock(); }
  void wrunlock() { m.unlock(); }
  void rd2wrlock() { }
  void wr2rdlock() { }
  void rd2wryield() { }
};

} // namespace policy

template <typename T, typename POLICY>
class Unlocked
{
  T data_;
  mutable POLICY policy_;

 public:
  template <typename... ARGS>
  Unlocked(ARGS&&... args) : data_(std::forward<ARGS>(args)...)
  {
  }
  Unlocked(Unlocked const&) = delete;
  Unlocked(Unlocked&) = delete;

  class crat
  {
    friend class Unlocked;

   protected:
    Unlocked* u_;
    bool writing_ = false;
    explicit crat(Unlocked* u, int) : u_(u) { }

   public:
    crat(Unlocked const& u) : u_(const_cast<Unlocked*>(&u)) { u_->policy_.rdlock(); }
    crat(crat const&) = delete;
    ~crat()
    {
      if (u_)
        u_->policy_.rdunlock();
    }
    T const* operator->() const { return &u_->data_; }
    T const& operator*() const { return u_->data_; }
  };
  struct rat : crat
  {
    using crat::crat;
  };

  class wat
  {
    Unlocked* u_;
    bool upgraded_;

   public:
    wat(Unlocked& u) : u_(&u), upgraded_(false) { u_->policy_.wrlock(); }
    explicit wat(rat const& r) : u_(r.u_), upgraded_(true) { u_->policy_.rd2wrlock(); }
    wat(wat const&) = delete;
    ~wat()
    {
      if (upgraded_)
        u_->policy_.wr2rdlock();
      else
        u_->policy_.wrunlock();
    }
    T* operator->() const { return &u_->data_; }
    T& operator*() const { return u_->data_; }
  };

  void rd2wryield() { policy_.rd2wryield(); }
};

} // namespace threadsafe
