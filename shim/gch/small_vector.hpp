// Stand-in for Gene Harvey's gch::small_vector, which is a dependency that the
// sandbox does not have. Semantically a std::vector with the small_vector
// extras; the inline capacity only affects performance, never behaviour.
#ifndef VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#define VERIF_SHIM_GCH_SMALL_VECTOR_HPP

#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>

namespace gch
{
    template <typename Allocator, typename Value = typename std::allocator_traits<Allocator>::value_type>
    struct default_buffer_size
    {
        static constexpr unsigned value = sizeof(Value) >= 64 ? 1u : static_cast<unsigned>(64 / sizeof(Value));
    };

    template <typename Allocator>
    inline constexpr unsigned default_buffer_size_v = default_buffer_size<Allocator>::value;

    template <typename T, unsigned InlineCapacity = default_buffer_size_v<std::allocator<T>>, typename Allocator = std::allocator<T>>
    class small_vector : public std::vector<T, Allocator>
    {
    public:
        using base_type = std::vector<T, Allocator>;
        using base_type::base_type;
        using base_type::operator=;
        using typename base_type::const_iterator;
        using typename base_type::size_type;

        static constexpr unsigned inline_capacity_v = InlineCapacity;

        constexpr small_vector() = default;
        constexpr small_vector(const small_vector &) = default;
        constexpr small_vector(small_vector &&) = default;
        constexpr auto operator=(const small_vector &) -> small_vector & = default;
        constexpr auto operator=(small_vector &&) -> small_vector & = default;
        constexpr ~small_vector() = default;

        template <unsigned I_>
            requires(I_ != InlineCapacity)
        constexpr explicit small_vector(const small_vector<T, I_, Allocator> & other) : base_type(other.begin(), other.end())
        {
        }

        template <unsigned I_>
            requires(I_ != InlineCapacity)
        constexpr explicit small_vector(small_vector<T, I_, Allocator> && other) :
            base_type(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()))
        {
            other.clear();
        }

        constexpr auto operator=(std::initializer_list<T> init) -> small_vector &
        {
            this->base_type::operator=(init);
            return *this;
        }

        using base_type::assign;
        template <unsigned I_>
        constexpr auto assign(const small_vector<T, I_, Allocator> & other) -> void
        {
            this->base_type::assign(other.begin(), other.end());
        }

        using base_type::swap;

        template <typename It_>
        constexpr auto append(It_ first, It_ last) -> small_vector &
        {
            this->insert(this->end(), first, last);
            return *this;
        }

        constexpr auto append(std::initializer_list<T> init) -> small_vector &
        {
            this->insert(this->end(), init.begin(), init.end());
            return *this;
        }

        template <unsigned I_>
        constexpr auto append(const small_vector<T, I_, Allocator> & other) -> small_vector &
        {
            auto n = other.size();
            this->reserve(this->size() + n);
            for (size_type i = 0; i < n; ++i)
                this->push_back(other[i]);
            return *this;
        }

        [[nodiscard]] constexpr auto inlined() const -> bool
        {
            return this->size() <= InlineCapacity;
        }

        [[nodiscard]] constexpr auto inlinable() const -> bool
        {
            return this->size() <= InlineCapacity;
        }

        [[nodiscard]] static constexpr auto inline_capacity() -> size_type
        {
            return InlineCapacity;
        }
    };

    template <typename T, unsigned I_, typename A>
    constexpr auto swap(small_vector<T, I_, A> & a, small_vector<T, I_, A> & b) noexcept -> void
    {
        a.swap(b);
    }

    template <typename T, unsigned I_, typename A, typename U>
    constexpr auto erase(small_vector<T, I_, A> & v, const U & value)
    {
        auto it = std::remove(v.begin(), v.end(), value);
        auto n = v.end() - it;
        v.erase(it, v.end());
        return static_cast<typename small_vector<T, I_, A>::size_type>(n);
    }

    template <typename T, unsigned I_, typename A, typename P>
    constexpr auto erase_if(small_vector<T, I_, A> & v, P pred)
    {
        auto it = std::remove_if(v.begin(), v.end(), pred);
        auto n = v.end() - it;
        v.erase(it, v.end());
        return static_cast<typename small_vector<T, I_, A>::size_type>(n);
    }
}

#endif
