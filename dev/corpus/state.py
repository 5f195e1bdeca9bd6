"""State shared between objects, and counters, counts and positions too narrow for what they count."""
CASES = [
 ('bad', "sh-" + 'heap-static-free', ['C01', 'C02', 'C03', 'C04'], 'allocators/static_heap.hpp', [(('    std::size_t x_free_bytes_remaining_{};', 0), '    static inline std::size_t x_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'heap-static-min', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_minimum_ever_free_bytes_remaining_{};', 0), '    static inline std::size_t x_minimum_ever_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'heap-static-cb', ['C04'], 'allocators/static_heap.hpp', [(('    callback_t   callback_{nullptr};', 0), '    static inline callback_t   callback_{nullptr};')]),
 ('bad', "sh-" + 'heap-static-start', ['C03', 'C01'], 'allocators/static_heap.hpp', [(('    block_link_t  x_start_{};', 0), '    static inline block_link_t  x_start_{};')]),
 ('bad', "sh-" + 'heap-static-end', ['C03', 'C01', 'C04'], 'allocators/static_heap.hpp', [(('    block_link_t* px_end_{};', 0), '    static inline block_link_t* px_end_{};')]),
 ('bad', "sh-" + 'heap-u32-allocs', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_allocations_{};', 0), '    std::uint16_t x_number_of_successful_allocations_{};')]),
 ('bad', "sh-" + 'obs-static-inside', ['C14', 'C15'], 'comm/observer.hpp', [(('    volatile bool inside{};', 0), '    static inline bool inside{};')]),
 ('bad', "sh-" + 'obs-static-count', ['C12', 'C13', 'C16'], 'comm/observer.hpp', [(('    size_type count_{0};', 0), '    static inline size_type count_{0};')]),
 ('bad', "sh-" + 'obs-u8-count', ['C12', 'C13', 'C14'], 'comm/observer.hpp', [(('    size_type count_{0};', 0), '    std::uint8_t count_{0};')]),
 ('bad', "sh-" + 'st-u32-tail', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint32_t>')]),
 ('bad', "sh-" + 'po-u32-tail', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint32_t>')]),
 ('bad', "sh-" + 'st-static-closed', ['C23', 'C22', 'C26'], 'comm/pipeline_stage.hpp', [(('    atomic_closed_type closed_{false};', 0), '    static inline atomic_closed_type closed_{false};')]),
 ('bad', "sh-" + 'st-static-queue', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('    queue_type         queue_{};', 0), '    static inline queue_type         queue_{};')]),
 ('bad', "sh-" + 'st-static-stat', ['C37', 'C26'], 'comm/pipeline_stage.hpp', [(('    statistics_type    stat_{};', 0), '    static inline statistics_type    stat_{};')]),
 ('bad', "sh-" + 'med-static-cnt', ['C09', 'C10'], 'comm/mediator.hpp', [(('    std::size_t modules_cnt_ = 0;', 0), '    static inline std::size_t modules_cnt_ = 0;')]),
 ('bad', "sh-" + 'med-static-mods', ['C09', 'C10'], 'comm/mediator.hpp', [(('    std::array<base::module*, Sources> modules_;', 0), '    static inline std::array<base::module*, Sources> modules_;')]),
 ('bad', "sh-" + 'med-int-hash', ['C10'], 'comm/mediator.hpp', [(('    std::size_t const id_;', 0), '    std::uint32_t const id_;')]),
 ('bad', "sh-" + 'lru-static-list', ['C07', 'C08', 'C18'], 'cache/lru.hpp', [(('    double_linked_list list_{};', 0), '    static inline double_linked_list list_{};')]),
 ('bad', "sh-" + 'lru-static-mutex', ['C18'], 'cache/lru.hpp', [(('    std::mutex access_{};', 0), '    static inline std::mutex access_{};')]),
 ('bad', "sh-" + 'iv-static-keep', ['C25', 'C27', 'C28'], 'func/interval_event.hpp', [(('    std::atomic_flag          keep_running_{true};', 0), '    static inline std::atomic_flag          keep_running_{true};')]),
 ('bad', "sh-" + 'iv-tl-last', ['C27', 'C26'], 'func/interval_event.hpp', [(('    bool                      stop_{false};', 0), '    static inline bool                      stop_{false};')]),
 ('bad', "sh-" + 'fp-static', ['C33'], 'func/fast_pimpl.hpp', [(('    std::aligned_storage_t<Size, Alignment> storage_;', 0), '    static inline std::aligned_storage_t<Size, Alignment> storage_;')]),
 ('bad', "sh-" + 'med-u8-cnt', ['C09', 'C10'], 'comm/mediator.hpp', [(('    std::size_t modules_cnt_ = 0;', 0), '    std::uint8_t modules_cnt_ = 0;')]),
 ('bad', "sh-" + 'med-u16-cnt', ['C09', 'C10'], 'comm/mediator.hpp', [(('    std::size_t modules_cnt_ = 0;', 0), '    std::uint16_t modules_cnt_ = 0;')]),
 ('bad', "sh-" + 'med-u8-loop', ['C10'], 'comm/mediator.hpp', [(('        for (std::size_t i = 0; i < modules_cnt_; i++) {\n            if (modules_.at(i)->id_ != sender', 0), '        for (std::uint8_t i = 0; i < modules_cnt_; i++) {\n            if (modules_.at(i)->id_ != sender')]),
 ('bad', "sh-" + 'obs-u8-loop', ['C14'], 'comm/observer.hpp', [(('        for (auto& item : std::views::counted(observers_.begin(), count_)) {\n            item->notification(static_cast<void*>(this), n);', 0), '        for (std::uint8_t i = 0; i < count_; i++) {\n            observers_[i]->notification(static_cast<void*>(this), n);')]),
 ('bad', "sh-" + 'h-std::uint16_t-0', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_free_bytes_remaining_{};', 0), '    std::uint16_t x_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-int-0', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_free_bytes_remaining_{};', 0), '    int x_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-std::uint32_t-0', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_free_bytes_remaining_{};', 0), '    std::uint32_t x_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-std::uint16_t-1', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_minimum_ever_free_bytes_remaining_{};', 0), '    std::uint16_t x_minimum_ever_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-int-1', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_minimum_ever_free_bytes_remaining_{};', 0), '    int x_minimum_ever_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-std::uint32_t-1', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_minimum_ever_free_bytes_remaining_{};', 0), '    std::uint32_t x_minimum_ever_free_bytes_remaining_{};')]),
 ('bad', "sh-" + 'h-std::uint16_t-2', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_allocations_{};', 0), '    std::uint16_t x_number_of_successful_allocations_{};')]),
 ('bad', "sh-" + 'h-int-2', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_allocations_{};', 0), '    int x_number_of_successful_allocations_{};')]),
 ('bad', "sh-" + 'h-std::uint32_t-2', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_allocations_{};', 0), '    std::uint32_t x_number_of_successful_allocations_{};')]),
 ('bad', "sh-" + 'h-std::uint16_t-3', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_frees_{};', 0), '    std::uint16_t x_number_of_successful_frees_{};')]),
 ('bad', "sh-" + 'h-int-3', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_frees_{};', 0), '    int x_number_of_successful_frees_{};')]),
 ('bad', "sh-" + 'h-std::uint32_t-3', ['C02'], 'allocators/static_heap.hpp', [(('    std::size_t x_number_of_successful_frees_{};', 0), '    std::uint32_t x_number_of_successful_frees_{};')]),
 ('bad', "sh-" + 'h-size32', ['C01', 'C02', 'C03'], 'allocators/static_heap.hpp', [(('        size_t               x_block_size;       /**', 0), '        std::uint32_t        x_block_size;       /**')]),
 ('bad', "sh-" + 'h-stat-u16', ['C02'], 'allocators/static_heap.hpp', [(('        size_t x_number_of_free_blocks;', 0), '        std::uint8_t x_number_of_free_blocks;')]),
 ('bad', "sh-" + 'h-stat-u16b', ['C02'], 'allocators/static_heap.hpp', [(('        size_t x_number_of_successful_frees;', 0), '        std::uint16_t x_number_of_successful_frees;')]),
 ('bad', "sh-" + 'h-blocks8', ['C02'], 'allocators/static_heap.hpp', [(('        std::size_t   x_blocks = 0, x_max_size = 0, x_min_size = port_max_delay;', 0), '        std::uint8_t x_blocks = 0; std::size_t  x_max_size = 0, x_min_size = port_max_delay;')]),
 ('bad', "sh-" + 'h-max32', ['C02'], 'allocators/static_heap.hpp', [(('        std::size_t   x_blocks = 0, x_max_size = 0, x_min_size = port_max_delay;', 0), '        std::uint16_t x_max_size = 0; std::size_t x_blocks = 0, x_min_size = port_max_delay;')]),
 ('bad', "sh-" + 'st-cnt-std::uint32_t', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint32_t>')]),
 ('bad', "sh-" + 'po-cnt-std::uint32_t', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint32_t>')]),
 ('bad', "sh-" + 'st-i-std::uint32_t', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('        auto const i                          = queue_.tail++;', 0), '        std::uint32_t const i                          = queue_.tail++;')]),
 ('bad', "sh-" + 'po-i-std::uint32_t', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('        auto const i                                        = pool_', 0), '        std::uint32_t const i                                        = pool_')]),
 ('bad', "sh-" + 'st-wi-std::uint32_t', ['C22'], 'comm/pipeline_stage.hpp', [(('                auto const i = tail_++;', 0), '                std::uint32_t const i = tail_++;')]),
 ('bad', "sh-" + 'po-wi-std::uint32_t', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('                    auto const i = head_l++;', 0), '                    std::uint32_t const i = head_l++;')]),
 ('bad', "sh-" + 'st-own-std::uint32_t', ['C22'], 'comm/pipeline_stage.hpp', [(('    atomic_cnt_type    tail_{0};', 0), '    std::atomic<std::uint32_t>    tail_{0};')]),
 ('bad', "sh-" + 'po-head-std::uint32_t', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('        atomic_cnt_type                    head;', 0), '        std::atomic<std::uint32_t>                    head;')]),
 ('bad', "sh-" + 'st-cnt-std::uint16_t', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint16_t>')]),
 ('bad', "sh-" + 'po-cnt-std::uint16_t', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<std::uint16_t>')]),
 ('bad', "sh-" + 'st-i-std::uint16_t', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('        auto const i                          = queue_.tail++;', 0), '        std::uint16_t const i                          = queue_.tail++;')]),
 ('bad', "sh-" + 'po-i-std::uint16_t', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('        auto const i                                        = pool_', 0), '        std::uint16_t const i                                        = pool_')]),
 ('bad', "sh-" + 'st-wi-std::uint16_t', ['C22'], 'comm/pipeline_stage.hpp', [(('                auto const i = tail_++;', 0), '                std::uint16_t const i = tail_++;')]),
 ('bad', "sh-" + 'po-wi-std::uint16_t', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('                    auto const i = head_l++;', 0), '                    std::uint16_t const i = head_l++;')]),
 ('bad', "sh-" + 'st-own-std::uint16_t', ['C22'], 'comm/pipeline_stage.hpp', [(('    atomic_cnt_type    tail_{0};', 0), '    std::atomic<std::uint16_t>    tail_{0};')]),
 ('bad', "sh-" + 'po-head-std::uint16_t', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('        atomic_cnt_type                    head;', 0), '        std::atomic<std::uint16_t>                    head;')]),
 ('bad', "sh-" + 'st-cnt-int', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<int>')]),
 ('bad', "sh-" + 'po-cnt-int', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<int>')]),
 ('bad', "sh-" + 'st-i-int', ['C21'], 'comm/pipeline_stage.hpp', [(('        auto const i                          = queue_.tail++;', 0), '        int const i                          = queue_.tail++;')]),
 ('bad', "sh-" + 'po-i-int', ['C21'], 'comm/pipeline_stage_pool.hpp', [(('        auto const i                                        = pool_', 0), '        int const i                                        = pool_')]),
 ('bad', "sh-" + 'st-wi-int', ['C22'], 'comm/pipeline_stage.hpp', [(('                auto const i = tail_++;', 0), '                int const i = tail_++;')]),
 ('bad', "sh-" + 'po-wi-int', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('                    auto const i = head_l++;', 0), '                    int const i = head_l++;')]),
 ('bad', "sh-" + 'st-own-int', ['C22'], 'comm/pipeline_stage.hpp', [(('    atomic_cnt_type    tail_{0};', 0), '    std::atomic<int>    tail_{0};')]),
 ('bad', "sh-" + 'po-head-int', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('        atomic_cnt_type                    head;', 0), '        std::atomic<int>                    head;')]),
 ('bad', "sh-" + 'st-cnt-unsigned char', ['C21', 'C22'], 'comm/pipeline_stage.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<unsigned char>')]),
 ('bad', "sh-" + 'po-cnt-unsigned char', ['C21', 'C22'], 'comm/pipeline_stage_pool.hpp', [(('using atomic_cnt_type    = std::atomic<std::size_t>', 0), 'using atomic_cnt_type    = std::atomic<unsigned char>')]),
 ('bad', "sh-" + 'st-i-unsigned char', ['C21'], 'comm/pipeline_stage.hpp', [(('        auto const i                          = queue_.tail++;', 0), '        unsigned char const i                          = queue_.tail++;')]),
 ('bad', "sh-" + 'po-i-unsigned char', ['C21'], 'comm/pipeline_stage_pool.hpp', [(('        auto const i                                        = pool_', 0), '        unsigned char const i                                        = pool_')]),
 ('bad', "sh-" + 'st-wi-unsigned char', ['C22'], 'comm/pipeline_stage.hpp', [(('                auto const i = tail_++;', 0), '                unsigned char const i = tail_++;')]),
 ('bad', "sh-" + 'po-wi-unsigned char', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('                    auto const i = head_l++;', 0), '                    unsigned char const i = head_l++;')]),
 ('bad', "sh-" + 'st-own-unsigned char', ['C22'], 'comm/pipeline_stage.hpp', [(('    atomic_cnt_type    tail_{0};', 0), '    std::atomic<unsigned char>    tail_{0};')]),
 ('bad', "sh-" + 'po-head-unsigned char', ['C22'], 'comm/pipeline_stage_pool.hpp', [(('        atomic_cnt_type                    head;', 0), '        std::atomic<unsigned char>                    head;')]),
 ('bad', "sh-" + 'ag-static-cb', ['C29'], 'func/argv_parser.hpp', [(('    std::map<std::string, callback_t> callbacks_;', 0), '    static inline std::map<std::string, callback_t> callbacks_;')]),
 ('bad', "sh-" + 'ag-static-vargv', ['C29'], 'func/argv_parser.hpp', [(('        std::vector<std::string_view> vargv(argv, argv + argc);', 0), '        static std::vector<std::string_view> vargv(argv, argv + argc);')]),
 ('bad', "sh-" + 'ag-static-stream', ['C29'], 'func/argv_parser.hpp', [(('                                std::stringstream value;', 0), '                                static std::stringstream value;')]),
 ('bad', "sh-" + 'ag-u8-idx', ['C29'], 'func/argv_parser.hpp', [(('for (int idx = 0;', 0), 'for (std::uint8_t idx = 0;')]),
 ('bad', "sh-" + 'ag-short-idx', ['C29'], 'func/argv_parser.hpp', [(('for (int idx = 0;', 0), 'for (short idx = 0;')]),
 ('bad', "sh-" + 'pk-static-stor', ['C35'], 'func/packet.hpp', [(('    array_type storage_{};', 0), '    static inline array_type storage_{};')]),
 ('bad', "sh-" + 'pk-static-size', ['C35'], 'func/packet.hpp', [(('    size_type  size_{};', 0), '    static inline size_type  size_{};')]),
 ('bad', "sh-" + 'pk-u8-size', ['C35'], 'func/packet.hpp', [(('    size_type  size_{};', 0), '    std::uint8_t  size_{};')]),
 ('bad', "sh-" + 'pk-u16-size', ['C35'], 'func/packet.hpp', [(('    size_type  size_{};', 0), '    std::uint16_t  size_{};')]),
 ('bad', "sh-" + 'pk-u16-sz', ['C35'], 'func/packet.hpp', [(('    using size_type = std::size_t;', 0), '    using size_type = std::uint16_t;')]),
 ('bad', "sh-" + 'pk-int-var', ['C35'], 'func/packet.hpp', [(('        size_type const variable_part = (size_ - length) / sizeof(Type);\n        if', 0), '        std::uint8_t const variable_part = (size_ - length) / sizeof(Type);\n        if')]),
 ('bad', "sh-" + 'pk-tt-static', ['C34'], 'func/packet.hpp', [(('        data<packet> tt{};\n', 0), '        static data<packet> tt{};\n')]),
 ('bad', "sh-" + 'pk-tt-static2', ['C34'], 'func/packet.hpp', [(('        data<packet> tt{type};\n', 0), '        static data<packet> tt{type};\n')]),
 ('bad', "sh-" + 'iv-static-last', ['C28'], 'func/interval_event.hpp', [(('              auto last_time{std', 0), '              static auto last_time{std')]),
 ('bad', "sh-" + 'iv-last-start', ['C28', 'C27'], 'func/interval_event.hpp', [(('          thread_{[&] {', 0), '          thread_{[&] {\n              static bool first{true};\n              if (!first) return;\n              first = false;')]),
 ('bad', "sh-" + 'lru-static-exp', ['C08'], 'cache/lru.hpp', [(('    const duration     expired_after_;', 0), '    static inline duration     expired_after_{};'), (('noexcept : expired_after_{expired} {}', 0), 'noexcept { expired_after_ = expired; }')]),
 ('bad', "sh-" + 'lru-now-static', ['C08'], 'cache/lru.hpp', [(('        return std::chrono::system_clock::now();', 0), '        static auto const t = std::chrono::system_clock::now(); return t;')]),
 ('bad', "sh-" + 'lru-now-cache', ['C08'], 'cache/lru.hpp', [(('        return std::chrono::system_clock::now();', 0), '        static timestamp t{}; if (t == timestamp{}) t = std::chrono::system_clock::now(); return t;')]),
 ('bad', "sh-" + 'obs-static-res', ['C14'], 'comm/observer.hpp', [(('        inside = true;\n        for (auto& item : std::views::counted(observers_.begin(), count_)) {', 0), '        inside = true;\n        static auto const n0 = count_;\n        for (auto& item : std::views::counted(observers_.begin(), n0)) {')]),
 ('bad', "sh-" + 'obs-tl', ['C14', 'C15'], 'comm/observer.hpp', [(('    volatile bool inside{};', 0), '    static inline thread_local bool inside{};')]),
 ('bad', "sh-" + 'med-static-name', ['C10', 'C11'], 'comm/mediator.hpp', [(('            data_converter<Data> cnv    = {data};', 0), '            static data_converter<Data> cnv    = {data};')]),
 ('bad', "sh-" + 'heap-static-prev', ['C01', 'C03'], 'allocators/static_heap.hpp', [(('        block_link_t* px_previous_block;\n', 0), '        static block_link_t* px_previous_block{};\n')]),
 ('bad', "sh-" + 'heap-static-hint', ['C01', 'C03'], 'allocators/static_heap.hpp', [(('                    px_previous_block = &x_start_;\n', 0), '                    static block_link_t* hint = &x_start_;\n                    px_previous_block = hint;\n')]),
 ('bad', "sh-" + 'po-static-last', ['C37'], 'comm/pipeline_stage_pool.hpp', [(('                    auto  last_time{std', 0), '                    static auto  last_time{std')]),
 ('bad', "sh-" + 'po-static-i', ['C22', 'C26'], 'comm/pipeline_stage_pool.hpp', [(('                    auto const i = head_l++;', 0), '                    static std::size_t i; i = head_l++;')]),
 ('bad', "sh-" + 'lru-u16', ['C07'], 'cache/lru.hpp', [(('list_.size() >= Size', 0), 'list_.size() >= static_cast<std::uint16_t>(Size)')]),
 ('bad', "sh-" + 'lru-u16b', ['C07'], 'cache/lru.hpp', [(('list_.size() >= Size', 0), 'static_cast<std::uint16_t>(list_.size()) >= Size')]),
 ('bad', "sh-" + 'lru-int', ['C07'], 'cache/lru.hpp', [(('list_.size() >= Size', 0), 'static_cast<std::uint8_t>(list_.size()) >= Size')]),
 ('bad', "sh-" + 'po-size-u8', ['C24'], 'comm/pipeline_stage_pool.hpp', [(('    std::size_t        pool_size_{};', 0), '    std::uint8_t        pool_size_{};')]),
 ('bad', "sh-" + 'po-arg-i8', ['C24'], 'comm/pipeline_stage_pool.hpp', [(('auto thread = [this](int const pool_thread_n)', 0), 'auto thread = [this](std::uint8_t const pool_thread_n)')]),
 ('bad', "sh-" + 'st-mod-u8', ['C21'], 'comm/pipeline_stage.hpp', [(('queue_.array[i % queue_.array.size()] = data', 0), 'queue_.array[i % static_cast<std::uint8_t>(queue_.array.size())] = data')]),
 ('bad', "sh-" + 'h-total-u16', ['C03'], 'allocators/static_heap.hpp', [(('        std::size_t   x_total_heap_size = config_total_heap_size;', 0), '        std::uint16_t   x_total_heap_size = config_total_heap_size;')]),
 ('bad', "sh-" + 'h-round-u32', ['C01', 'C04'], 'allocators/static_heap.hpp', [(('                    x_additional_required_size = port_byte_alignment - (x_wanted_size & port_byte_alignment_mask);', 0), '                    x_wanted_size = static_cast<std::uint32_t>(x_wanted_size); x_additional_required_size = port_byte_alignment - (x_wanted_size & port_byte_alignment_mask);')]),
 ('bad', "sh-" + 'h-calloc32', ['C01'], 'allocators/static_heap.hpp', [(('            pv = allocate(x_num * x_size);', 0), '            pv = allocate(static_cast<std::uint32_t>(x_num * x_size));')]),
 ('bad', "sh-" + 'h-memset32', ['C01'], 'allocators/static_heap.hpp', [(('                memset(pv, 0, x_num * x_size);', 0), '                memset(pv, 0, static_cast<std::uint16_t>(x_num * x_size));')]),
 ('bad', "sh-" + 'h-canary32', ['C03'], 'allocators/static_heap.hpp', [(('        return (block_link_t*)(((std::size_t)(px_block)) ^ x_heap_canary);', 0), '        return (block_link_t*)(((std::size_t)(std::uint32_t)(std::size_t)(px_block)) ^ x_heap_canary);')]),
 ("good", "sh-static-calls", ["C12", "C13", "C14", "C15", "C16", "C17", "C19"], "comm/observer.hpp", [("        inside = true;", "        static std::size_t calls; calls++; inside = true;")]),
 ("bad", "sh-st-closed-var", ['C23'], 'comm/pipeline_stage.hpp', [(('        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n            while (tail_ < queue_.tail) {', 0), '        while (!closed_ || ((queue_.tail - tail_) > 0)) {\n            while (tail_ < queue_.tail && !closed_) {')]),
 ("bad", "sh-po-spawn-cap", ['C24'], 'comm/pipeline_stage_pool.hpp', [(('pool_size_{PoolSize}', 0), 'pool_size_{std::min<std::size_t>(PoolSize, std::thread::hardware_concurrency())}')]),
 ("bad", "sh-po-spawn-cap16", ['C24'], 'comm/pipeline_stage_pool.hpp', [(('pool_size_{PoolSize}', 0), 'pool_size_{std::min<std::size_t>(PoolSize, 16)}')]),
 ("bad", "sh-po-size-signed", ['C24'], 'comm/pipeline_stage_pool.hpp', [(('auto const size{item.tail - item.head};', 0), 'auto const size{static_cast<std::uint8_t>(item.tail - item.head)};')]),
 ("bad", "sh-po-size-mod", ['C24'], 'comm/pipeline_stage_pool.hpp', [(('auto const size{item.tail - item.head};', 0), 'auto const size{(item.tail - item.head) % BufferSize};')]),
 ("bad", "sh-po-size-load", ['C24'], 'comm/pipeline_stage_pool.hpp', [(('auto const size{item.tail - item.head};', 0), 'auto const size{item.tail % BufferSize - item.head % BufferSize};')]),
 ("bad", "sh-st-member-order", ['C25'], 'comm/pipeline_stage.hpp', [(('    mutable std::mutex stat_mutex_{};\n\n    std::thread worker_ ', 0), '    std::thread worker_ '), (('    }};\n};', 0), '    }};\n    mutable std::mutex stat_mutex_{};\n};')]),
 ("good", "sh-g-free", ["C21", "C22", "C23", "C24", "C25"], 'comm/pipeline_stage_pool.hpp', [(('        std::size_t min{std::numeric_limits<int>::max()};', 0), '        std::int64_t min{std::numeric_limits<std::int64_t>::min()};'), (('auto const size{item.tail - item.head};', 0), 'auto const size{static_cast<std::int64_t>(BufferSize) - static_cast<std::int64_t>(item.tail - item.head)};'), (('if (min > size)', 0), 'if (min < size)')]),
 ("good", "sh-g-int", ["C21", "C22", "C23", "C24", "C25"], 'comm/pipeline_stage_pool.hpp', [(('auto const size{item.tail - item.head};', 0), 'auto const size{static_cast<std::uint32_t>(item.tail - item.head)};')]),
 ("good", "sh-g-last", ["C21", "C22", "C23", "C24", "C25"], 'comm/pipeline_stage.hpp', [(('        while (!closed_ || ((queue_.tail - tail_) > 0)) {', 0), '        for (bool last{false}; !last;) {\n            last = closed_;')]),
 ("good", "sh-g-drain", ["C21", "C22", "C23", "C24", "C25"], 'comm/pipeline_stage.hpp', [(('        while (!closed_ || ((queue_.tail - tail_) > 0)) {', 0), '        while (true) {\n            if (closed_ && (queue_.tail == tail_)) break;')]),
 ('bad', "sh-data-ser-big", ['C32'], 'func/data.hpp', [(('        std::copy(tt.pure.begin(), tt.pure.end(), begin);', 0), '        std::copy(tt.pure.begin(), tt.pure.begin() + (sizeof(fields) & 0xff), begin);')]),
 ('bad', "sh-data-deser-big", ['C32'], 'func/data.hpp', [(('        std::copy_n(begin, sizeof(fields), tt.pure.begin());', 0), '        std::copy_n(begin, static_cast<std::uint8_t>(sizeof(fields)), tt.pure.begin());')]),
 ('bad', "sh-med-hash-short", ['C10'], 'comm/mediator.hpp', [(('id_(std::hash<std::string>{}(id))', 0), 'id_(std::hash<std::string>{}(id.substr(0, 32)))')]),
 ('good', "sh-med-hash-cstr", ['C09', 'C10', 'C11'], 'comm/mediator.hpp', [(('id_(std::hash<std::string>{}(id))', 0), 'id_(std::hash<std::string>{}(id.c_str()))')]),
 ('bad', "sh-med-hash-len", ['C10'], 'comm/mediator.hpp', [(('id_(std::hash<std::string>{}(id))', 0), 'id_(id.size())')]),
]
