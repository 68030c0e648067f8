// C18: thread local pointers are per fiber
#include "fiberenv.hpp"

#include <yaclib_std/mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

#include <utility>
#include <vector>

namespace {

using mc::P;
using mc::PB;
using mc::u32;

struct Animal {
  int legs = 0;
};
struct Cat : Animal {
  int lives = 9;
};

int g_ints[8];
char g_chars[8];
Cat g_cats[8];
Animal g_animals[8];

// the way a program declares them: static, with and without an initial value
YACLIB_THREAD_LOCAL_PTR(int) t_int0;
YACLIB_THREAD_LOCAL_PTR(int) t_int1;
YACLIB_THREAD_LOCAL_PTR(int) t_int2{&g_ints[7]};
YACLIB_THREAD_LOCAL_PTR(int) t_int3;
YACLIB_THREAD_LOCAL_PTR(char) t_char0;
YACLIB_THREAD_LOCAL_PTR(char) t_char1{&g_chars[7]};
YACLIB_THREAD_LOCAL_PTR(Cat) t_cat;
YACLIB_THREAD_LOCAL_PTR(Animal) t_animal{&g_animals[7]};

struct Model {
  int* i0 = nullptr;
  int* i1 = nullptr;
  int* i2 = &g_ints[7];
  int* i3 = nullptr;
  char* c0 = nullptr;
  char* c1 = &g_chars[7];
  Cat* cat = nullptr;
  Animal* animal = &g_animals[7];
};

template <typename T, typename U>
void Same(const T& proxy, U* expected, const char* name, u32 fiber, const char* when) {
  if (proxy.Get() != expected) {
    mc::Fail("", "thread local pointer: %s of fiber %u is %p after %s, it has to be %p", name, fiber,
             static_cast<const void*>(proxy.Get()), when, static_cast<const void*>(expected));
  }
  MC_CHECK(static_cast<bool>(proxy) == (expected != nullptr) && (proxy == nullptr) == (expected == nullptr) &&
             (nullptr != proxy) == (expected != nullptr) && proxy == expected && !(expected != proxy),
           "thread local pointer: %s of fiber %u does not compare like a pointer after %s", name, fiber, when);
  if (expected != nullptr) {
    MC_CHECK(&*proxy == expected && proxy.operator->() == expected, "thread local pointer: %s is not dereferenced to its object",
             name);
  }
}

void CheckAll(const Model& m, u32 fiber, const char* when) {
  Same(t_int0, m.i0, "int0", fiber, when);
  Same(t_int1, m.i1, "int1", fiber, when);
  Same(t_int2, m.i2, "int2", fiber, when);
  Same(t_int3, m.i3, "int3", fiber, when);
  Same(t_char0, m.c0, "char0", fiber, when);
  Same(t_char1, m.c1, "char1", fiber, when);
  Same(t_cat, m.cat, "cat", fiber, when);
  Same(t_animal, m.animal, "animal", fiber, when);
}

template <typename T>
T* Pick(T* array) {
  const u32 i = P(8);
  return i == 0 ? nullptr : array + i;
}

u32 g_switches, g_running;

void Pass(Model& m, u32 fiber, yaclib_std::mutex& mutex) {
  switch (P(3)) {
    case 0:
      yaclib_std::this_thread::yield();
      break;
    case 1:
      yaclib_std::this_thread::sleep_for(std::chrono::nanoseconds{P(50)});
      break;
    default:
      mutex.lock();
      yaclib_std::this_thread::yield();
      mutex.unlock();
      break;
  }
  if (g_running != fiber) {
    ++g_switches;
  }
  g_running = fiber;
  CheckAll(m, fiber, "other fibers ran");
}

void Body(u32 fiber, u32 n, yaclib_std::mutex& mutex) {
  Model m;
  g_running = fiber;
  CheckAll(m, fiber, "the start of the fiber");
  for (u32 k = 0; k < n; ++k) {
    switch (P(16)) {
      case 0:
      case 1:
        Pass(m, fiber, mutex);
        continue;
      case 2:
        t_int0 = m.i0 = Pick(g_ints);
        break;
      case 3:
        t_int1 = m.i1 = Pick(g_ints);
        break;
      case 4:
        t_int2 = m.i2 = Pick(g_ints);
        break;
      case 5:
        t_int3 = m.i3 = Pick(g_ints);
        break;
      case 6:
        t_char0 = m.c0 = Pick(g_chars);
        break;
      case 7:
        t_char1 = m.c1 = Pick(g_chars);
        break;
      case 8:
        t_cat = m.cat = Pick(g_cats);
        break;
      case 9:
        t_animal = m.animal = Pick(g_animals);
        break;
      case 10:
        PB() ? t_int0 = t_int1 : t_int0 = std::move(t_int1);
        m.i0 = m.i1;
        break;
      case 11:
        PB() ? t_int1 = t_int2 : t_int1 = std::move(t_int2);
        m.i1 = m.i2;
        break;
      case 12:
        if (PB()) {
          t_char0 = t_char1;
          m.c0 = m.c1;
        } else {
          auto& self = t_char1;
          t_char1 = self;
          t_char1 = std::move(self);
        }
        break;
      case 13:
        PB() ? t_animal = t_cat : t_animal = std::move(t_cat);
        m.animal = m.cat;
        break;
      case 14:
        PB() ? t_int3 = t_int2 : t_int3 = std::move(t_int2);
        m.i3 = m.i2;
        break;
      default: {
        if (P(16) != 1) {
          Pass(m, fiber, mutex);
          continue;
        }
        // a copy has the value and is another variable
        YACLIB_THREAD_LOCAL_PTR(int) copy{t_int0};
        Same(copy, m.i0, "copy of int0", fiber, "the copy");
        YACLIB_THREAD_LOCAL_PTR(int) moved{std::move(t_int1)};
        Same(moved, m.i1, "int1 constructed from an rvalue", fiber, "the construction");
        YACLIB_THREAD_LOCAL_PTR(Animal) base{t_cat};
        Same(base, static_cast<Animal*>(m.cat), "conversion of cat", fiber, "the construction");
        copy = &g_ints[1];
        moved = &g_ints[2];
        base = &g_animals[3];
        Same(copy, &g_ints[1], "copy of int0", fiber, "an assignment");
        Same(moved, &g_ints[2], "int1 constructed from an rvalue", fiber, "an assignment");
        Same(base, &g_animals[3], "conversion of cat", fiber, "an assignment");
        break;
      }
    }
    CheckAll(m, fiber, "an assignment");
    if (m.i0 != nullptr && m.i1 != nullptr) {
      MC_CHECK((t_int0 < t_int1) == (m.i0 < m.i1) && (t_int0 >= t_int1) == (m.i0 >= m.i1) &&
                 (t_int0 == t_int1) == (m.i0 == m.i1),
               "thread local pointers do not compare like pointers");
    }
    if (m.i2 != nullptr && m.i2 != &g_ints[7]) {
      MC_CHECK(&t_int2[1] == m.i2 + 1, "operator[]");
    }
  }
  CheckAll(m, fiber, "all");
}

}  // namespace

MC_SCENARIO(fiber_tls, "C18", 3) {
  fz::Configure();
  fz::Scheduler scheduler;
  g_switches = 0;
  const u32 fibers = 2 + P(3);
  mc::Describe("%u fibers ", fibers);
  yaclib_std::mutex mutex;
  u32 done = 0;
  yaclib_std::thread root{[&] {
    std::vector<yaclib_std::thread> threads;
    for (u32 i = 0; i < fibers; ++i) {
      const u32 n = 1 + P(10);
      mc::Describe("%u ", n);
      threads.emplace_back([&, i, n] {
        Body(i + 1, n, mutex);
        ++done;
      });
    }
    if (PB()) {
      Body(0, 1 + P(5), mutex);
    }
    for (auto& t : threads) {
      t.join();
    }
  }};
  root.join();
  MC_CHECK(done == fibers, "thread: join returned before the threads finished");
  if (g_switches >= 2) {
    mc::NonTrivial();
  }
}
