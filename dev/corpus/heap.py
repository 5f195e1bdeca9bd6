H = "allocators/static_heap.hpp"
A = "allocators/static_heap_allocator.hpp"
def bad(i, c, f, *s): return ("bad", i, c, f, list(s))
def good(i, f, *s): return ("good", i, ["C01", "C02", "C03", "C04", "C05", "C06"], f, list(s))
WALK = """                    while ((px_block->x_block_size < x_wanted_size)
                           && (px_block->px_next_free_block != heap_protect_block_pointer(NULL))) {
                        px_previous_block = px_block;
                        px_block          = heap_protect_block_pointer(px_block->px_next_free_block);
                        heap_validate_block_pointer(px_block);
                    }
"""
MINU = """                        if (x_free_bytes_remaining_ < x_minimum_ever_free_bytes_remaining_) {
                            x_minimum_ever_free_bytes_remaining_ = x_free_bytes_remaining_;
                        } else {
                            mt_coverage_test_marker();
                        }
"""
LEFT = """        if ((puc + px_iterator->x_block_size) == (uint8_t*)px_block_to_insert) {"""
INS = """        for (px_iterator = &x_start_; heap_protect_block_pointer(px_iterator->px_next_free_block) < px_block_to_insert;
             px_iterator = heap_protect_block_pointer(px_iterator->px_next_free_block)) {
            /* Nothing to do here, just iterate to the right position. */
        }
"""
RIGHT = """            if (heap_protect_block_pointer(px_iterator->px_next_free_block) != px_end_) {
                /* Form one big block from the two blocks. */"""
RET = """        if (pv_return == nullptr && callback_ != nullptr) {
            callback_();
        } else {"""
FREE = """                    heap_free_block(px_link);
"""
ACC = "                        x_free_bytes_remaining_ += px_link->x_block_size;\n"
INSCALL = "                        prv_insert_block_into_free_list(((block_link_t*)px_link));\n"
CASES = [
 # C01
 bad("h-size-noheader", ["C01"], H, ("x_wanted_size += x_heap_struct_size;", "x_wanted_size += x_heap_struct_size / 2;")),
 bad("h-no-align", ["C01"], H, ("x_wanted_size += x_additional_required_size;\n", ";\n")),
 bad("h-align-down", ["C01"], H, ("x_wanted_size += x_additional_required_size;\n", "x_wanted_size -= x_wanted_size & port_byte_alignment_mask;\n")),
 bad("h-no-ovf", ["C01"], H, ("if (heap_add_will_overflow(x_wanted_size, x_heap_struct_size) == 0) {", "if (true) {")),
 bad("h-ovf-off", ["C01"], H, ("return ((a) > (heap_size_max - (b)));", "return ((a) > (heap_size_max - (b) / 2));")),
 bad("h-calloc-novf", ["C01"], H, ("if (heap_multiply_will_overflow(x_num, x_size) == 0) {", "{")),
 bad("h-calloc-ovf-half", ["C01"], H, ("return (((a) > 0) && ((b) > (heap_size_max / (a))));", "return (((a) > 0xffff) && ((b) > (heap_size_max / (a))));")),
 bad("h-calloc-zero-part", ["C01"], H, ("memset(pv, 0, x_num * x_size);", "memset(pv, 0, x_num);")),
 bad("h-accept-smaller", ["C01"], H, ("(px_block->x_block_size < x_wanted_size)", "(px_block->x_block_size + 8 < x_wanted_size)")),
 bad("h-find-noheader", ["C01"], H, ("(px_block->x_block_size < x_wanted_size)", "(px_block->x_block_size < x_wanted_size - x_heap_struct_size)")),
 bad("h-split-less", ["C01", "C03"], H, ("px_block->x_block_size          = x_wanted_size;", "px_block->x_block_size          = x_wanted_size - port_byte_alignment;")),
 bad("h-ret-header", ["C01", "C03", "C05"], H, ("+ x_heap_struct_size);\n                        heap_validate_block_pointer(pv_return);", "+ x_heap_struct_size / 2);\n                        heap_validate_block_pointer(pv_return);")),
 bad("h-adaptor-novf", ["C01"], A, ("if (size > static_cast<size_t>(-1) / sizeof(Type)) {", "if (size > static_cast<size_t>(-1) / 2) {")),
 bad("h-adaptor-size", ["C01"], A, ("manager_.allocate(size * sizeof(Type))", "manager_.allocate(size * sizeof(Type*))")),
 bad("h-adaptor-nosize", ["C01"], A, ("manager_.allocate(size * sizeof(Type))", "manager_.allocate(size + sizeof(Type))")),
 # C02
 bad("h-free-late", ["C02"], H, ("                        x_free_bytes_remaining_ -= px_block->x_block_size;\n", "                        x_free_bytes_remaining_ -= x_wanted_size;\n")),
 bad("h-min-stale", ["C02"], H, (MINU, "")),
 bad("h-min-le", ["C02"], H, (MINU, MINU.replace("= x_free_bytes_remaining_;", "= x_free_bytes_remaining_ + px_block->x_block_size;"))),
 bad("h-min-always", ["C02"], H, (MINU, "x_minimum_ever_free_bytes_remaining_ = x_free_bytes_remaining_;\n")),
 bad("h-alloc-count-all", ["C02", "C04"], H, ("x_number_of_successful_allocations_++;", ""), ("        v_task_suspend_all();\n        {\n            /* Check", "        x_number_of_successful_allocations_++;\n        {\n            /* Check")),
 bad("h-free-after-merge", ["C02"], H, (ACC, ""), (INSCALL, INSCALL + ACC)),
 bad("h-free-count", ["C02"], H, ("x_number_of_successful_frees_++;", "")),
 bad("h-free-resets-min", ["C02"], H, (ACC, ACC + "x_minimum_ever_free_bytes_remaining_ = x_free_bytes_remaining_;")),
 bad("h-reset-zero", ["C02"], H, ("        x_minimum_ever_free_bytes_remaining_ = x_free_bytes_remaining_;\n    }", "        x_minimum_ever_free_bytes_remaining_ = config_total_heap_size;\n    }")),
 bad("h-stats-swap", ["C02"], H, ("px_heap_stats->x_number_of_successful_frees        = x_number_of_successful_frees_;", "px_heap_stats->x_number_of_successful_frees        = x_number_of_successful_allocations_;")),
 bad("h-stats-min", ["C02"], H, ("if (px_block->x_block_size < x_min_size) {", "if (px_block->x_block_size < x_max_size) {")),
 bad("h-stats-max", ["C02"], H, ("if (px_block->x_block_size > x_max_size) {", "if (px_block->x_block_size >= x_min_size) {")),
 bad("h-stats-count", ["C02"], H, ("                    x_blocks++;\n", ""), ("                        x_max_size = px_block->x_block_size;\n", "                        x_max_size = px_block->x_block_size; x_blocks++;\n")),
 bad("h-ctor-min", ["C02"], H, ("x_minimum_ever_free_bytes_remaining_ = px_first_free_block->x_block_size;", "x_minimum_ever_free_bytes_remaining_ = config_total_heap_size;")),
 bad("h-ctor-free", ["C02"], H, ("x_free_bytes_remaining_              = px_first_free_block->x_block_size;", "x_free_bytes_remaining_              = x_total_heap_size;")),
 bad("h-free-marked-size", ["C02"], H, (FREE, ""), (INSCALL, FREE + INSCALL)),
 # C03
 bad("h-nounlink", ["C03"], H, ("                        px_previous_block->px_next_free_block = px_block->px_next_free_block;\n", "")),
 bad("h-remainder-big", ["C03"], H, ("px_new_block_link->x_block_size = px_block->x_block_size - x_wanted_size;", "px_new_block_link->x_block_size = px_block->x_block_size - x_wanted_size + x_heap_struct_size;")),
 bad("h-remainder-order", ["C03"], H, ("px_new_block_link->x_block_size = px_block->x_block_size - x_wanted_size;\n                            px_block->x_block_size          = x_wanted_size;", "px_block->x_block_size          = x_wanted_size;\n px_new_block_link->x_block_size = px_block->x_block_size - x_wanted_size;")),
 bad("h-remainder-lost", ["C03"], H, ("                            px_previous_block->px_next_free_block = heap_protect_block_pointer(px_new_block_link);\n", "")),
 bad("h-remainder-next", ["C03"], H, ("px_new_block_link->px_next_free_block = px_previous_block->px_next_free_block;", "px_new_block_link->px_next_free_block = heap_protect_block_pointer(px_end_);")),
 bad("h-split-tiny", ["C03"], H, ("if ((px_block->x_block_size - x_wanted_size) > heap_minimum_block_size) {", "if ((px_block->x_block_size - x_wanted_size) > 0) {")),
 bad("h-left-end", ["C03"], H, (LEFT, LEFT.replace("if (", "if (px_iterator != &x_start_ && px_iterator->px_next_free_block != heap_protect_block_pointer(px_end_) && "))),
 bad("h-left-never", ["C03"], H, (LEFT, LEFT.replace("if (", "if (false && "))),
 bad("h-left-size", ["C03"], H, ("px_iterator->x_block_size += px_block_to_insert->x_block_size;", "px_iterator->x_block_size += px_block_to_insert->x_block_size - x_heap_struct_size;")),
 bad("h-left-keep", ["C03"], H, ("            px_block_to_insert = px_iterator;\n", "")),
 bad("h-right-end", ["C03"], H, (RIGHT, RIGHT.replace("!= px_end_", "!= nullptr"))),
 bad("h-right-next", ["C03"], H, ("                px_block_to_insert->px_next_free_block\n                    = heap_protect_block_pointer(px_iterator->px_next_free_block)->px_next_free_block;", "                px_block_to_insert->px_next_free_block = px_iterator->px_next_free_block;")),
 bad("h-right-size", ["C03"], H, ("                px_block_to_insert->x_block_size\n                    += heap_protect_block_pointer(px_iterator->px_next_free_block)->x_block_size;", "")),
 bad("h-right-near", ["C03"], H, ("        if ((puc + px_block_to_insert->x_block_size)\n            == ", "        if ((puc + px_block_to_insert->x_block_size)\n            >= ")),
 bad("h-nolink", ["C03"], H, ("        if (px_iterator != px_block_to_insert) {", "        if (px_iterator == px_block_to_insert) {")),
 bad("h-order-le", ["C03"], H, (INS, INS.replace("< px_block_to_insert", "!= px_end_"))),
 bad("h-order-head", ["C03"], H, (INS, "px_iterator = &x_start_;\n")),
 bad("h-end-out", ["C03"], H, ("        ux_end_address -= (std::size_t)x_heap_struct_size;\n", "")),
 bad("h-end-part", ["C03"], H, ("        ux_end_address -= (std::size_t)x_heap_struct_size;\n", "        ux_end_address -= (std::size_t)port_byte_alignment;\n")),
 bad("h-first-total", ["C03"], H, ("px_first_free_block->x_block_size       = (std::size_t)(ux_end_address - (std::size_t)px_first_free_block);", "px_first_free_block->x_block_size       = x_total_heap_size;")),
 bad("h-end-unaligned", ["C03"], H, ("        ux_end_address &= ~((std::size_t)port_byte_alignment_mask);\n        px_end_", "        px_end_")),
 # C04
 bad("h-cb-always", ["C04"], H, (RET, RET.replace("pv_return == nullptr && ", ""))),
 bad("h-cb-never", ["C04"], H, (RET, RET.replace("callback_();", ""))),
 bad("h-cb-twice", ["C04"], H, ("            pv = allocate(x_num * x_size);\n", "            pv = allocate(x_num * x_size);\n            if (pv == nullptr && callback_ != nullptr) callback_();\n")),
 bad("h-cb-unset", ["C04"], H, (RET, RET.replace(" && callback_ != nullptr", ""))),
 bad("h-fail-lowmin", ["C02", "C04"], H, ("                    if (px_block != px_end_) {", "                    if (px_block == px_end_) x_minimum_ever_free_bytes_remaining_ = 0;\n                    if (px_block != px_end_) {")),
 bad("h-adaptor-null", ["C04"], A, ("        throw std::bad_alloc();\n", "        return nullptr;\n")),
 bad("h-adaptor-throw-all", ["C04"], A, ("        if (ptr) {", "        if (ptr && size) {")),
 bad("h-adaptor-exc", ["C04"], A, ("        throw std::bad_alloc();\n", "        throw 1;\n")),
 # C05
 bad("h-free-nomark", ["C05"], H, ("            if (heap_block_is_allocated(px_link) != 0) {", "            if (px_link != nullptr) {")),
 bad("h-free-null", ["C05"], H, ("        if (pv != nullptr) {\n            /* The memory", "        {\n            /* The memory")),
 bad("h-free-valid-ignored", ["C05"], H, ("if (px_link->px_next_free_block == heap_protect_block_pointer(NULL)) {\n                    /* The block is being", "if (px_link->px_next_free_block == NULL) {\n                    /* The block is being")),
 bad("h-alloc-nomark", ["C05"], H, ("                        heap_allocate_block(px_block);\n", "")),
 bad("h-alloc-nomark-split", ["C05"], H, ("                        heap_allocate_block(px_block);\n", "                        if (x_allocated_block_size != x_wanted_size) heap_allocate_block(px_block);\n")),
 bad("h-alloc-next", ["C05"], H, ("                        px_block->px_next_free_block = heap_protect_block_pointer(NULL);\n                        x_number", "                        x_number")),
 bad("h-free-mark-stays", ["C05"], H, (FREE, ""), (ACC, "                        x_free_bytes_remaining_ += px_link->x_block_size & ~heap_block_allocated_bitmask;\n"), ("px_iterator->x_block_size += px_block_to_insert->x_block_size;", "px_iterator->x_block_size += px_block_to_insert->x_block_size & ~heap_block_allocated_bitmask;")),
 # C06
 bad("h-eq-this", ["C06"], A, ("return &manager_ == &other.manager_;", "return true;")),
 bad("h-eq-size", ["C06"], A, ("return &manager_ == &other.manager_;", "return manager_.free_heap_size() == other.manager_.free_heap_size();")),
 bad("h-ne-same", ["C06"], A, ("return !this->operator==(other);", "return static_cast<void const*>(this) != static_cast<void const*>(&other);")),
 bad("h-eq-type", ["C06"], A, ("return &manager_ == &other.manager_;", "return sizeof(U) == sizeof(Type) && &manager_ == &other.manager_;")),
 bad("h-dealloc-none", ["C06"], A, ("        manager_.deallocate(ptr);", "        if (size) manager_.deallocate(ptr);")),
 # good
 good("hg-walk-for", H, (WALK, """                    for (; px_block->x_block_size < x_wanted_size; px_previous_block = px_block, px_block = heap_protect_block_pointer(px_block->px_next_free_block)) {
                        if (px_block->px_next_free_block == heap_protect_block_pointer(NULL)) break;
                    }
""")),
 good("hg-walk-end", H, (WALK, """                    while ((px_block != px_end_) && (px_block->x_block_size < x_wanted_size)) {
                        px_previous_block = px_block;
                        px_block          = heap_protect_block_pointer(px_block->px_next_free_block);
                    }
""")),
 good("hg-min", H, (MINU, "                        x_minimum_ever_free_bytes_remaining_ = std::min(x_minimum_ever_free_bytes_remaining_, x_free_bytes_remaining_);\n")),
 good("hg-min-le", H, (MINU, MINU.replace("< x_minimum", "<= x_minimum"))),
 good("hg-round", H, ("""                if ((x_wanted_size & port_byte_alignment_mask) != 0x00) {
                    /* Byte alignment required. */""", """                if (x_wanted_size % port_byte_alignment) {
                    /* Byte alignment required. */""")),
 good("hg-early-null", H, ("        if (pv != nullptr) {\n            /* The memory", "        if (pv == nullptr) return;\n        {\n            /* The memory")),
 good("hg-cb-bool", H, (RET, RET.replace("callback_ != nullptr", "callback_"))),
 good("hg-cb-nested", H, (RET, """        if (!pv_return) {
            if (callback_) callback_();
        } else {""")),
 good("hg-ins-while", H, (INS, """        px_iterator = &x_start_;
        while (heap_protect_block_pointer(px_iterator->px_next_free_block) < px_block_to_insert) {
            px_iterator = heap_protect_block_pointer(px_iterator->px_next_free_block);
        }
""")),
 good("hg-ins-next", H, (INS, """        px_iterator = &x_start_;
        for (auto* nx = heap_protect_block_pointer(x_start_.px_next_free_block); nx < px_block_to_insert; nx = heap_protect_block_pointer(nx->px_next_free_block)) {
            px_iterator = nx;
        }
""")),
 good("hg-free-flat", H, ("""            if (heap_block_is_allocated(px_link) != 0) {
                if (px_link->px_next_free_block == heap_protect_block_pointer(NULL)) {""", """            bool const valid = heap_block_is_allocated(px_link) != 0 && px_link->px_next_free_block == heap_protect_block_pointer(NULL);
            if (valid) {
                {"""), ("""                    x_task_resume_all();
                } else {
                    mt_coverage_test_marker();
                }""", """                    x_task_resume_all();
                }""")),
 good("hg-free-order", H, ("x_number_of_successful_frees_++;", ""), (ACC, "x_number_of_successful_frees_++;\n" + ACC)),
 good("hg-split-ge", H, ("> heap_minimum_block_size) {", ">= heap_minimum_block_size + port_byte_alignment) {")),
 good("hg-split-min16", H, ("> heap_minimum_block_size) {", ">= x_heap_struct_size) {")),
 good("hg-best-ret", H, ("(((uint8_t*)heap_protect_block_pointer(px_previous_block->px_next_free_block))\n                                      + x_heap_struct_size)", "(((uint8_t*)px_block) + x_heap_struct_size)")),
 good("hg-link-first", H, ("                            px_new_block_link->px_next_free_block = px_previous_block->px_next_free_block;\n", "                            px_new_block_link->px_next_free_block = px_block->px_next_free_block;\n")),
 good("hg-calloc", H, ("        if (heap_multiply_will_overflow(x_num, x_size) == 0) {\n            pv = allocate(x_num * x_size);\n\n            if (pv != nullptr) {\n                memset(pv, 0, x_num * x_size);\n            }\n        }\n", "        if (heap_multiply_will_overflow(x_num, x_size) != 0) {\n            return nullptr;\n        }\n        const std::size_t total = x_num * x_size;\n        pv = allocate(total);\n        if (pv) std::memset(pv, 0, total);\n")),
 good("hg-mulovf", H, ("return (((a) > 0) && ((b) > (heap_size_max / (a))));", "return a != 0 && (a * b) / a != b;")),
 good("hg-addovf", H, ("return ((a) > (heap_size_max - (b)));", "return (a + b) < a;")),
 good("hg-canary", H, ("0x655556UL", "0x5a5a50UL")),
 good("hg-mark", H, ("return ((px_block->x_block_size) |= heap_block_allocated_bitmask);", "return px_block->x_block_size = px_block->x_block_size | heap_block_allocated_bitmask;")),
 good("hg-freeblock", H, ("return ((px_block->x_block_size) &= ~heap_block_allocated_bitmask);", "return px_block->x_block_size ^= heap_block_allocated_bitmask;")),
 good("hg-isalloc", H, ("return (((px_block->x_block_size) & heap_block_allocated_bitmask) != 0);", "return px_block->x_block_size >= heap_block_allocated_bitmask;")),
 good("hg-stats", H, ("                    if (px_block->x_block_size > x_max_size) {\n                        x_max_size = px_block->x_block_size;\n                    }", "                    x_max_size = std::max(x_max_size, px_block->x_block_size);")),
 good("hg-stats-for", H, ("            if (px_block != NULL) {\n                while (px_block != px_end_) {", "            {\n                for (; px_block != px_end_;) {")),
 good("hg-stats-after", H, ("                    x_blocks++;\n", ""), ("                        x_min_size = px_block->x_block_size;\n                    }\n", "                        x_min_size = px_block->x_block_size;\n                    }\n x_blocks += 1;\n")),
 good("hg-ctor-order", H, ("        x_minimum_ever_free_bytes_remaining_ = px_first_free_block->x_block_size;\n        x_free_bytes_remaining_              = px_first_free_block->x_block_size;", "        x_free_bytes_remaining_ = ux_end_address - ux_start_address;\n        x_minimum_ever_free_bytes_remaining_ = x_free_bytes_remaining_;")),
 good("hg-adaptor-if", A, ("        if (ptr) {\n            return ptr;\n        }\n        throw std::bad_alloc();\n", "        if (ptr == nullptr) {\n            throw std::bad_alloc();\n        }\n        return ptr;\n")),
 good("hg-adaptor-ne", A, ("return !this->operator==(other);", "return &manager_ != &other.manager_;")),
 good("hg-adaptor-ptr", A, ("auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));", "std::size_t const bytes = sizeof(Type) * size;\n        auto* raw = manager_.allocate(bytes);\n        auto ptr = reinterpret_cast<Type*>(raw);")),
 good("hg-left-else", H, (LEFT, LEFT.replace("(puc + px_iterator->x_block_size) == (uint8_t*)px_block_to_insert", "(uint8_t*)px_block_to_insert - px_iterator->x_block_size == puc"))),
 good("hg-nextvar", H, ("        puc = (uint8_t*)px_block_to_insert;\n", "        puc = (uint8_t*)px_block_to_insert;\n        block_link_t* px_following = heap_protect_block_pointer(px_iterator->px_next_free_block);\n"), (RIGHT, RIGHT.replace("heap_protect_block_pointer(px_iterator->px_next_free_block) != px_end_", "px_following != px_end_"))),
 bad("h-refuse-eq", ["C04"], H, ("(x_wanted_size <= x_free_bytes_remaining_)", "(x_wanted_size < x_free_bytes_remaining_)")),
 bad("h-refuse-walk-le", ["C04"], H, ("while ((px_block->x_block_size < x_wanted_size)", "while ((px_block->x_block_size <= x_wanted_size)")),
 bad("h-left-size-lost", ["C03"], H, ("            px_iterator->x_block_size += px_block_to_insert->x_block_size;\n", "")),
 bad("h-stats-start", ["C02"], H, ("x_max_size = 0, x_min_size", "x_max_size = 1, x_min_size")),
 bad("h-stats-start2", ["C02"], H, ("std::size_t   x_blocks = 0,", "std::size_t   x_blocks = 1,")),
 bad("h-stats-still", ["C02"], H, ("                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);\n                }\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats", "                }\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats")),
 good("h-refuse-not", H, ("(x_wanted_size <= x_free_bytes_remaining_)", "!(x_free_bytes_remaining_ < x_wanted_size)")),
 good("h-stats-cond", H, ("                    if (px_block->x_block_size > x_max_size) {\n                        x_max_size = px_block->x_block_size;\n                    }\n", "                    x_max_size = (px_block->x_block_size > x_max_size) ? px_block->x_block_size : x_max_size;\n")),
 bad("h-calloc-zero-num", ["C01"], H, ("memset(pv, 0, x_num * x_size);", "memset(pv, 0, x_size);")),
 bad("h-calloc-zero-div", ["C01"], H, ("memset(pv, 0, x_num * x_size);", "memset(pv, 0, x_num / x_size);")),
 good("h-search-do", H, ('while ((px_block->x_block_size < x_wanted_size)\n                           && (px_block->px_next_free_block != heap_protect_block_pointer(NULL))) {', 'if ((px_block->x_block_size < x_wanted_size)\n                           && (px_block->px_next_free_block != heap_protect_block_pointer(NULL))) do {'), ('heap_validate_block_pointer(px_block);\n                    }\n', 'heap_validate_block_pointer(px_block);\n                    } while ((px_block->x_block_size < x_wanted_size)\n                           && (px_block->px_next_free_block != heap_protect_block_pointer(NULL)));\n')),
 good("h-stats-do", H, ("while (px_block != px_end_) {", "if (px_block != px_end_) do {"), ('px_block = heap_protect_block_pointer(px_block->px_next_free_block);\n                }\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats', 'px_block = heap_protect_block_pointer(px_block->px_next_free_block);\n                } while (px_block != px_end_);\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats')),
 bad("h-stats-do-once", ["C02"], H, ("while (px_block != px_end_) {", "do {"), ('px_block = heap_protect_block_pointer(px_block->px_next_free_block);\n                }\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats', 'px_block = heap_protect_block_pointer(px_block->px_next_free_block);\n                } while (px_block != px_end_);\n            }\n        }\n        x_task_resume_all();\n\n        px_heap_stats')),
]
