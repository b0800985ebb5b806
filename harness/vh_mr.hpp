// Recording memory resource for the cetl::pf17::pmr interface.
#pragma once
#include "vh.hpp"
#include <cetl/pf17/memory_resource.hpp>

namespace vh
{
class MemRes : public cetl::pf17::pmr::memory_resource
{
public:
    enum Realloc
    {
        REFUSE,   // never reallocates
        IN_PLACE, // grows/shrinks in place only when there is room
        MOVING,   // may move the bytes, like realloc()
    };
    Heap        heap;
    Realloc     mode     = REFUSE;
    std::size_t max      = static_cast<std::size_t>(-1);
    bool        throws   = false;  // an injected failure of reallocate() is reported by an exception
    explicit MemRes(int id = 0, Realloc m = REFUSE)
        : mode(m)
    {
        heap.id = id;
    }

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        void* p = n > max ? nullptr : heap.get(n, a);
#if VH_EXC
        if (p == nullptr)
        {
            throw std::bad_alloc();
        }
#endif
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        heap.put(p, n, a);
    }
    bool do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return max;
    }
    void* do_reallocate(void* p, std::size_t old_size, std::size_t new_size, std::size_t new_align) override
    {
        if (mode == REFUSE || new_size > max)
        {
            return nullptr;
        }
        const auto  fired = fault().fired;
        void* const r     = heap.regrow(p, old_size, new_size, new_align, mode == MOVING);
#if VH_EXC
        if (r == nullptr && throws && fault().fired != fired)
        {
            throw std::bad_alloc();
        }
#else
        (void) fired;
#endif
        return r;
    }
};
}  // namespace vh
