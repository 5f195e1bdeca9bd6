"""C36: uses that no test makes."""
PROPS = ["C36"]
L = "cache/lru.hpp"; H = "allocators/static_heap.hpp"; A = "allocators/static_heap_allocator.hpp"; O = "comm/observer.hpp"; S = "comm/observer_static.hpp"
V = "comm/values/observable.hpp"; VD = "comm/values/observed.hpp"; M = "comm/mediator.hpp"; PS = "comm/pipeline_stage.hpp"; PP = "comm/pipeline_stage_pool.hpp"
D = "func/data.hpp"; K = "func/packet.hpp"; I = "func/interval_event.hpp"; G = "func/argv_parser.hpp"; F = "func/fast_pimpl.hpp"; LA = "func/log_adapter.hpp"; X = "cache/exceptions.hpp"


def b(i, h, *e):
    return ("bad", i, ["C36"], h, list(e))


def g(i, h, *e):
    return ("good", i, ["C36"], h, list(e))


CASES = [
 b("us-lru-default", L, ("            map_[key] = fresh.begin();", "            map_[key] = fresh.begin();\n            if (list_.size() > 2 * Size)\n                std::get<1>(list_.back()) = Value{};")),
 b("us-lru-nullopt", L, ("                return std::nullopt;\n            }\n            list_.splice", "                return data_item{};\n            }\n            list_.splice")),
 b("us-lru-const", L, ("    expired_after() const", "    expired_after()")),
 b("us-heap-const", H, ("    free_heap_size() const", "    free_heap_size()")),
 b("us-heap-const2", H, ("    minimum_ever_free_heap_size() const", "    minimum_ever_free_heap_size()")),
 b("us-heap-calloc", H, ("memset(pv, 0, x_num * x_size);", "std::fill_n(pv, x_num * x_size, 0);")),
 b("us-heap-fail", H, ("    using callback_t = std::function<void(void)>;", "    using callback_t = void (*)();")),
 b("us-al-explicit", A, ("    static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}", "    explicit static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}")),
 b("us-al-eq", A, ("    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept", "    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept")),
 b("us-al-friend", A, ("    template <class U, size_t FriendPoolSize>\n    friend class static_heap_allocator;\n", "")),
 b("us-al-dealloc", A, ("[[maybe_unused]] std::size_t size = 0) noexcept", "[[maybe_unused]] std::size_t size) noexcept")),
 b("us-al-rebind", A, ("    template <typename U>\n    struct rebind                                            // NOLINT\n    {\n        using other = static_heap_allocator<U, PoolSize>;    // NOLINT\n    };\n", "")),
 b("us-ob-byvalue", O, ("    void\n    notify_observers(observable_type const& n)", "    void\n    notify_observers(observable_type n)")),
 b("us-ob-keep", O, ("        inside = true;\n", "        inside = true;\n        observable_type const copy{n};\n        (void)copy;\n")),
 b("us-ob-remove-nc", O, ("    void\n    remove_observer(observer<observable_type> const& observer)\n    {\n#ifdef", "    void\n    remove_observer(observer<observable_type>& observer)\n    {\n#ifdef")),
 b("us-os-byvalue", S, ("    inline void\n    notify(D const& data) noexcept\n    {\n        obs_.notification(root, data);\n        return", "    inline void\n    notify(D data) noexcept\n    {\n        obs_.notification(root, data);\n        return")),
 b("us-os-single", S, ("public:\n    observable_impl<D> root{};", "    observable_impl<D> root{};\n\npublic:")),
 b("us-va-native", V, (("    operator++() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::fetch_add(1) + 1;\n", 2), "    operator++() noexcept\n    {\n        auto const ret = std::atomic<observable_type>::operator++();\n")),
 b("us-va-integral", V, (("template <class T, std::size_t Max>\nclass observable : ", 1), "template <class T, std::size_t Max>\n    requires std::is_integral_v<T>\nclass observable : ")),
 b("us-vd-func", VD, ("    using function_type = std::function<void(T const)>;", "    using function_type = void (*)(T const);")),
 b("us-vd-value", VD, ("        return std::atomic<T>::load();", "        return std::atomic<T>::fetch_add(0);")),
 b("us-me-union", M, ("            data_converter<Data> cnv    = {data};", "            data_converter<Data> cnv;\n            cnv.fields = data;")),
 b("us-me-norecv", M, ("        if constexpr (sizeof...(Recvs) > 0)\n", "")),
 b("us-me-protected", M, ("    template <class T>\n    constexpr T\n    convert_field", "private:\n    template <class T>\n    constexpr T\n    convert_field")),
 b("us-me-lvalue", M, ("    void\n    send(Data data)\n", "    void\n    send(Data& data)\n")),
 b("us-ps-debug", PS, (("        Log::trace() << \"Index: \" << queue_.tail << \"\\n\";", 1), "        Log::info() << \"Index: \" << queue_.tail << \"\\n\";")),
 b("us-ps-name", PS, ("        Log::debug() << \"All lines parsed: \" << tail_ << \"\\n\";", "        Log::debug() << \"All lines parsed: \" << head_ << \"\\n\";")),
 b("us-ps-print", PS, ("            Log::trace() << \"Index to process: \" << i << \"\\n\";", "            Log::trace() << \"Index to process: \" << std::to_string(queue_.array[i].value()) << \"\\n\";")),
 b("us-ps-const", PS, ("    time_for_unit() const", "    time_for_unit()")),
 b("us-ps-result", PS, ("                func_(pipeline_stage_exception::no_error, data.value(),\n                      measure_type{time_for_unit(), buffer_utilization()});", "                [[maybe_unused]] auto const next = func_(pipeline_stage_exception::no_error, data.value(),\n                      measure_type{time_for_unit(), buffer_utilization()});")),
 b("us-pp-debug", PP, ("        Log::trace() << \"Index[\" << min_id << \"]: \" << pool_[min_id].tail << \"\\n\";\n#endif\n    }\n\n    /**\n     * @brief Push data to the pipeline stage pool.\n     *\n     * @param data Data to be pushed.\n     */\n    void\n    push(Type const& data)", "        Log::trace() << \"Index[\" << min << \"]: \" << pool_[min_id].tail << \"\\n\";\n#endif\n    }\n\n    void\n    push(Type const& data)")) if False else b("us-pp-debug", PP, ("            Log::debug() << \"End thread \" << pool_thread_n << \"... \\n\";", "            Log::debug() << \"End thread \" << thread_n << \"... \\n\";")),
 b("us-pp-default", PP, ("    using ready_type         = std::optional<Type>;", "    using ready_type         = std::optional<Type>;\n    static_assert(std::is_default_constructible_v<Type>);")),
 b("us-da-getconst", D, (("    [[nodiscard]] constexpr data_type\n    get() const\n", 1), "    [[nodiscard]] constexpr data_type\n    get()\n")),
 b("us-da-ge", D, (("    operator>=(lsb_t const& other) const\n", 1), "    operator>=(lsb_t const& other)\n")),
 b("us-da-lvalue", D, (("    constexpr msb_t(data_type const& value)\n", 1), "    constexpr msb_t(data_type& value)\n")),
 b("us-da-ra", D, ("    template <std::input_iterator InputIterator>\n    static constexpr Type\n", "    template <std::random_access_iterator InputIterator>\n    static constexpr Type\n")),
 b("us-da-ptr", D, ("        std::copy_n(begin, sizeof(fields), tt.pure.begin());", "        __builtin_memcpy(tt.pure.data(), &*begin, sizeof(fields) - (begin - begin));")),
 b("us-da-swap", D, ("concept swappable = std::same_as<std::uint16_t, T> || std::same_as<std::uint32_t, T> || std::same_as<std::uint64_t, T>;", "concept swappable = std::same_as<std::uint16_t, T> || std::same_as<std::uint32_t, T>;")),
 b("us-da-include", D, ("#include <array>\n", ""), ("#include <algorithm>\n", ""), ("#include <bit>\n", "")),
 b("us-pk-get", K, ("        return (fields_.crc == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)));", "        return fields_.crc.get() == Crc::calculate(pure_.begin(), pure_.end() - sizeof(typename Crc::value_type)).get();")),
 b("us-pk-acc-get", K, ("crc_conv == crc_calc,", "crc_conv.get() == crc_calc.get(),")),
 b("us-pk-arr", K, ("        static_assert(Size >= length);", "        static_assert(Size == length);")),
 b("us-pk-ref", K, ("        Fields const* const member{&fields_.fields};\n        return *member;", "        return fields_.fields;")),
 b("us-pk-ref2", K, ("        Fields* const member{&fields_.fields};\n        return *member;", "        return fields_.fields;")),
 b("us-pk-storage", K, ("    inline array_type const&\n    storage() const noexcept", "    inline array_type&\n    storage() const noexcept")),
 b("us-pk-nocheck", K, ("    deserialize_no_check() const noexcept", "    deserialize_no_check() noexcept")),
 b("us-pk-out", K, ("    template <std::output_iterator<std::uint8_t> InputIterator>", "    template <std::input_iterator InputIterator>")),
 b("us-iv-const", I, ("    period_between_checks() const noexcept", "    period_between_checks() noexcept")),
 b("us-iv-ref", I, ("    period(time_type const& val) noexcept", "    period(time_type& val) noexcept")),
 b("us-iv-func", I, ("    interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,", "    interval_event(void (*function)(), time_type repeat_every = 100ms,")),
 b("us-ag-copy", G, ("    static std::unique_ptr<argv_parser>\n    instance(std::initializer_list<argument_type> args)", "    static std::unique_ptr<argv_parser>\n    instance(std::initializer_list<argument_type>& args)")),
 b("us-ag-double", G, ("std::variant<std::string Opts::*, int Opts::*, double Opts::*, bool Opts::*>", "std::variant<std::string Opts::*, int Opts::*, float Opts::*, bool Opts::*>")),
 b("us-fp-complete", F, ("    using const_reference = T const&;\n", "    using const_reference = T const&;\n\n    static_assert(Size >= sizeof(T));\n")),
 b("us-fp-copyonly", F, ("fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}", "fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{static_cast<const_reference>(*rhs)} {}")),
 b("us-fp-constarrow", F, ("    const_pointer\n    operator->() const noexcept\n", "    const_pointer\n    operator->() noexcept(true)\n") ) if False else b("us-fp-constderef", F, ("    const_reference\n    operator*() const noexcept\n    {\n        return *get();\n    }\n", "")),
 b("us-la-concept", LA, ("    T::error();\n", "    T::error();\n    T::info();\n")),
 b("us-ex-include", X, ("#include <exception>\n", ""), ("#include <cstdint>\n", "")),
 # still usable
 g("usg-lru-helper", L, ("    inline timestamp\n    get_time()\n", "    static bool\n    same(Key const& a, Key const& b)\n    {\n        return a == b;\n    }\n\n    inline timestamp\n    get_time()\n")),
 g("usg-private-broken", L, ("    inline timestamp\n    get_time()\n", "    void\n    unused()\n    {\n        Value fresh{};\n        (void)fresh;\n    }\n\n    inline timestamp\n    get_time()\n")),
 g("usg-heap-nodiscard", H, ("    std::size_t\n    free_heap_size() const", "    [[nodiscard]] constexpr std::size_t\n    free_heap_size() const noexcept")),
 g("usg-al-noinline", A, ("        throw std::bad_alloc();", "        fail();"), ("    constexpr void\n    deallocate(", "    [[noreturn]] static void\n    fail()\n    {\n        throw std::bad_alloc();\n    }\n\n    constexpr void\n    deallocate(")),
 g("usg-ob-alias", O, ("using observable_static = observable<T, true, Max>;", "using observable_static = observable<T, true, Max>;\n\ntemplate <typename T>\nusing observer_for = observer<T>;")),
 g("usg-va-load", V, (("        return std::atomic<T>::load();", 1), "        T const now = std::atomic<T>::load();\n        return now;")),
 g("usg-me-memcpy", M, ("            data_converter<Data> cnv    = {data};", "            data_converter<Data> cnv{};\n            cnv.fields = data;")),
 g("usg-ps-emplace", PS, (("        queue_.array[i % queue_.array.size()] = data;", 2), "        queue_.array[i % queue_.array.size()].emplace(data);")),
 g("usg-ps-log", PS, ("        Log::debug() << \"All lines parsed: \" << tail_ << \"\\n\";", "        Log::warning() << \"All lines parsed: \" << tail_.load() << \"\\n\";")),
 g("usg-da-defaulted", D, (("    operator<(lsb_t const& other) const\n", 1), "    operator<(lsb_t const& other) const noexcept\n")),
 g("usg-da-loop", D, ("        std::copy_n(begin, sizeof(fields), tt.pure.begin());", "        for (auto& byte : tt.pure) {\n            byte = static_cast<std::uint8_t>(*begin);\n            ++begin;\n        }")),
 g("usg-da-out", D, ("    template <std::input_iterator InputIterator>\n    static constexpr void\n", "    template <std::output_iterator<std::uint8_t> InputIterator>\n    static constexpr void\n")),
 g("usg-pk-at", K, ("        Fields* const member{&fields_.fields};\n        return *member;", "        return *reinterpret_cast<Fields*>(pure_.data() + sizeof(Header));")),
 g("usg-iv-helper", I, ("            keep_running_.clear();\n", "            ask();\n"), ("private:\n    std::function<void(void)> function_;", "private:\n    void\n    ask() noexcept\n    {\n        keep_running_.clear();\n    }\n\n    std::function<void(void)> function_;")),
 g("usg-ag-method", G, ("        return register_callback(p.first, p.second);", "        auto const& [name, prop] = p;\n        return register_callback(name, prop);")),
 g("usg-fp-assert", F, ("        validator<sizeof(T), alignof(T)>::validate();\n", "        static_assert(Size >= sizeof(T) && Alignment % alignof(T) == 0 && (!Strict || Size == sizeof(T)));\n")),
 g("usg-order", X, ("#include <cstdint>\n#include <exception>\n", "#include <exception>\n")),
]
