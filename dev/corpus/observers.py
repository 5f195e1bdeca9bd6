O = "comm/observer.hpp"
V = "comm/values/observable.hpp"
ADD = """        if (count_ >= max_observers) [[unlikely]]
            return observer_errors::list_is_full;
        if (!contains(observer)) [[likely]] {
            observers_[count_++] = &observer;
        } else [[unlikely]] {
            return observer_errors::already_contains;
        }
        return observer_errors::ok;"""
REM = """        auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);
        if ((observers_.begin() + count_) - it) {
            count_ = it - observers_.begin();
            return observer_errors::ok;
        } else {
            return observer_errors::not_found;
        }"""
CONT = """        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            if (item == &observer) [[unlikely]]
                return true;
        }
        return false;"""
CLR = """        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            item->disconnect(static_cast<void*>(this));
        }
        count_ = 0;"""
NOT = """        for (auto& item : std::views::counted(observers_.begin(), count_)) {
            item->notification(static_cast<void*>(this), n);
        }"""
DREM = """        if (!std::erase(observers_, &observer)) {
            throw exception{observer_errors::not_found};
        }"""
DNOT = """        for (auto& item : observers_) {
            item->notification(static_cast<void*>(this), n);
        }"""
DCLR = """        for (auto& item : observers_) {
            item->disconnect(static_cast<void*>(this));
        }
        observers_.clear();"""
DADD = """        if (!contains(observer)) [[likely]] {
            observers_.push_back(&observer);
        } else [[unlikely]] {
            throw exception{observer_errors::already_contains};
        }"""
CASES = []
for nm, f in (("o", O), ("v", V)):
    C = lambda kind, i, ch, *subs: CASES.append((kind, f"{nm}-{i}", ch, f, list(subs)))
    C("bad", "add-full", ["C12"], ("count_ >= max_observers", "count_ > max_observers"))
    C("bad", "add-early-full", ["C12"], ("count_ >= max_observers", "count_ + 1 >= max_observers"))
    C("bad", "add-nodup", ["C12"], ("if (!contains(observer)) [[likely]]", "if (count_ != 2 || !contains(observer))"))
    C("bad", "add-status", ["C12"], ("return observer_errors::already_contains", "return observer_errors::ok"))
    C("bad", "add-front", ["C12"], ("observers_[count_++] = &observer;", "for (size_type i = count_; i > 0; --i) observers_[i] = observers_[i-1]; observers_[0] = &observer; count_++;"))
    C("bad", "cont-skip0", ["C12"], (CONT, "for (size_type i = 1; i < count_; ++i) { if (observers_[i] == &observer) return true; } return false;"))
    C("bad", "cont-skiplast", ["C12"], (CONT, "for (size_type i = 0; i + 1 < count_; ++i) { if (observers_[i] == &observer) return true; } return false;"))
    C("bad", "cont-sorted", ["C12"], (CONT, "for (size_type i = 0; i < count_; ++i) { if (observers_[i] > &observer) break; if (observers_[i] == &observer) return true; } return false;"))
    C("bad", "add-nocount", ["C12"], ("observers_[count_++] = &observer;", "observers_[count_] = &observer; if (count_ + 1 < max_observers) count_++;"))
    C("bad", "rem-swap", ["C13"], (REM, """auto e = observers_.begin() + count_; auto it = std::find(observers_.begin(), e, &observer);
        if (it != e) { *it = observers_[count_ - 1]; --count_; return observer_errors::ok; } return observer_errors::not_found;"""))
    C("bad", "rem-trunc", ["C13"], (REM, """auto e = observers_.begin() + count_; auto it = std::find(observers_.begin(), e, &observer);
        if (it != e) { count_ = it - observers_.begin(); return observer_errors::ok; } return observer_errors::not_found;"""))
    C("bad", "rem-deconly", ["C13"], (REM, """auto e = observers_.begin() + count_; auto it = std::find(observers_.begin(), e, &observer);
        if (it != e) { --count_; return observer_errors::ok; } return observer_errors::not_found;"""))
    C("bad", "rem-last", ["C13"], ("count_ = it - observers_.begin();", "count_ = count_ - 1 - (count_ > 1 ? 1 : 0);"))
    C("bad", "rem-short", ["C13"], (REM, """size_type i = 0; while (i + 1 < count_ && observers_[i] != &observer) ++i; if (observers_[i] != &observer) return observer_errors::not_found;
        for (; i + 2 < count_; ++i) observers_[i] = observers_[i + 1]; --count_; return observer_errors::ok;"""))
    C("bad", "rem-okmissing", ["C13"], ("if (count_ == 0) [[unlikely]]\n            return observer_errors::not_found;", "if (count_ == 0) return observer_errors::ok;"))
    C("bad", "rem-status", ["C13"], (REM, REM.replace("return observer_errors::not_found", "return observer_errors::ok")))
    C("bad", "rem-firstonly", ["C13"], ("if (count_ == 0) [[unlikely]]", "if (count_ == 0 || observers_[0] != &observer)"))
    C("bad", "rem-nocount", ["C13"], ("count_ = it - observers_.begin();", ""))
    C("bad", "not-skiplast", ["C14"], (NOT, NOT.replace("count_))", "count_ - (count_ > 4)))")))
    C("bad", "not-rev", ["C14"], (NOT, "for (size_type i = count_; i-- > 0;) observers_[i]->notification(static_cast<void*>(this), n);"))
    C("bad", "not-twice", ["C14"], (NOT, NOT.replace("n);", "n); if (item == observers_[0] && count_ > 2) item->notification(static_cast<void*>(this), n);")))
    C("bad", "not-disc", ["C14"], (NOT, NOT.replace("item->notification(static_cast<void*>(this), n)", "item->disconnect(static_cast<void*>(this))")))
    C("bad", "not-all", ["C14"], (NOT, NOT.replace("observers_.begin(), count_", "observers_.begin(), count_ < 2 ? count_ : max_observers")))
    C("bad", "not-status", ["C14"], (NOT, "if (count_ == max_observers) return observer_errors::internal_data_broken;\n" + NOT))
    C("bad", "not-init", ["C14"], (NOT, NOT.replace(", n)", ", observable_type{})")))
    C("bad", "clr-nodisc", ["C16"], (CLR, "count_ = 0;"))
    C("bad", "clr-first", ["C16"], (CLR, "count_ = 0;\n" + CLR))
    C("bad", "clr-keep", ["C16"], (CLR, CLR.replace("count_ = 0;", "")))
    C("bad", "clr-one", ["C16"], (CLR, CLR.replace("count_ = 0;", "count_ = count_ > 4 ? 1 : 0;")))
    C("bad", "clr-null", ["C16"], (CLR, CLR.replace("static_cast<void*>(this)", "nullptr")))
    C("bad", "clr-skip1", ["C16"], (CLR, CLR.replace("observers_.begin(), count_", "observers_.begin() + 1, count_ ? count_ - 1 : 0")))
    C("bad", "dtor-empty", ["C16"], ("noexcept { clear_observers(); }", "noexcept { count_ = 0; }"))
    C("bad", "clr-limit", ["C16"], (CLR, "for (size_type i = 0; i < count_ && i < 4; ++i) observers_[i]->disconnect(static_cast<void*>(this)); count_ = 0;"))
    ch = ["C12", "C13", "C14", "C15", "C16"]
    C("good", "find", ch, (CONT, "auto e = observers_.begin() + count_; return std::find(observers_.begin(), e, &observer) != e;"))
    C("good", "anyof", ch, (CONT, "return std::any_of(observers_.begin(), observers_.begin() + count_, [&](auto* p) { return p == &observer; });"))
    C("good", "contidx", ch, (CONT, "for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer) return true; } return false;"))
    C("good", "contback", ch, (CONT, "for (size_type i = count_; i > 0; --i) { if (observers_[i - 1] == &observer) return true; } return false;"))
    C("good", "count", ch, (CONT, "return std::count(observers_.begin(), observers_.begin() + count_, &observer) != 0;"))
    C("good", "rangesfind", ch, (CONT, "auto v = std::views::counted(observers_.begin(), count_); return std::ranges::find(v, &observer) != v.end();"))
    C("good", "addorder", ch, (ADD, """        if (contains(observer)) return count_ >= max_observers ? observer_errors::list_is_full : observer_errors::already_contains;
        if (count_ >= max_observers) return observer_errors::list_is_full;
        observers_[count_] = &observer; ++count_; return observer_errors::ok;"""))
    C("good", "addorder2", ch, (ADD, """        if (contains(observer)) return observer_errors::already_contains;
        if (count_ < max_observers) { auto idx = count_; count_ += 1; observers_.at(idx) = &observer; return observer_errors::ok; }
        return observer_errors::list_is_full;"""))
    C("good", "remfind", ch, (REM, """auto e = observers_.begin() + count_; auto it = std::find(observers_.begin(), e, &observer);
        if (it == e) return observer_errors::not_found;
        std::copy(it + 1, e, it); --count_; return observer_errors::ok;"""))
    C("good", "remloop", ch, (REM, """for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer) {
          for (size_type j = i + 1; j < count_; ++j) observers_[j - 1] = observers_[j];
          --count_; return observer_errors::ok; } } return observer_errors::not_found;"""))
    C("good", "remfilter", ch, (REM, """size_type w = 0; for (size_type i = 0; i < count_; ++i) if (observers_[i] != &observer) observers_[w++] = observers_[i];
          if (w == count_) return observer_errors::not_found; count_ = w; return observer_errors::ok;"""))
    C("good", "remfilter2", ch, (REM, """size_type w = 0; for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer) continue; observers_[w] = observers_[i]; w++; }
          bool found = w != count_; count_ = w; return found ? observer_errors::ok : observer_errors::not_found;"""))
    C("good", "remnull", ch, (REM, """size_type i = 0; while (i < count_ && observers_[i] != &observer) ++i; if (i == count_) return observer_errors::not_found;
          for (; i + 1 < count_; ++i) observers_[i] = observers_[i + 1]; observers_[--count_] = nullptr; return observer_errors::ok;"""))
    C("good", "remrange", ch, ("std::remove(observers_.begin(), observers_.begin() + count_, &observer)", "std::remove_if(observers_.begin(), observers_.begin() + count_, [&](auto* p) { return p == &observer; })"))
    C("good", "notidx", ch, (NOT, "for (size_type i = 0; i < count_; ++i) observers_[i]->notification(static_cast<void*>(this), n);"))
    C("good", "notfe", ch, (NOT, "std::for_each(observers_.begin(), observers_.begin() + count_, [&](auto* p) { p->notification(this, n); });"))
    C("good", "notspan", ch, (NOT, "auto const last = count_; size_type i{0}; while (i != last) { auto* const p = observers_[i]; ++i; p->notification(static_cast<void*>(this), n); }"))
    C("good", "notcopy", ch, (NOT, "auto const copy = n; for (size_type i = 0; i < count_; ++i) observers_[i]->notification(static_cast<void*>(this), copy);"))
    C("good", "notguard", ch, (NOT, "if (count_ != 0) {\n" + NOT + "\n}"))
    C("good", "clridx", ch, (CLR, "for (size_type i = 0; i < count_; i++) { observers_[i]->disconnect(this); } count_ = size_type{};"))
    C("good", "clrwhile", ch, (CLR, "size_type i = 0; while (i < count_) { observers_[i++]->disconnect(this); } count_ = 0; observers_.fill(nullptr);"))
    C("good", "clrtake", ch, (CLR, "auto const k = count_; count_ = 0; for (size_type i = 0; i < k; i++) { observers_[i]->disconnect(this); }"))
    C("good", "clrback", ["C12", "C13", "C14", "C15"], (CLR, "while (count_ > 0) { observers_[count_ - 1]->disconnect(this); --count_; }"))
C = lambda kind, i, ch, *subs: CASES.append((kind, "o-" + i, ch, O, list(subs)))
C("bad", "guard-none", ["C15"], ("inside = true;", ""))
C("bad", "guard-late", ["C15"], ("        inside = true;\n", ""), (NOT, NOT + "\ninside = true;"))
C("bad", "guard-noreset", ["C15"], ("inside = false;", "if (count_) inside = false;"))
C("bad", "guard-early", ["C15"], (NOT, NOT.replace("n);", "n); inside = false;")))
C("bad", "guard-refuse", ["C15"], ("if (inside) [[unlikely]]\n            return observer_errors::notify_recursion_detected;", "if (inside) { inside = false; return observer_errors::notify_recursion_detected; }"))
C("bad", "guard-init", ["C15"], ("volatile bool inside{}", "volatile bool inside{true}"))
C("bad", "guard-dropped", ["C15"], ("if (inside) [[unlikely]]\n            return observer_errors::notify_recursion_detected;", ""))
C("bad", "guard-exit", ["C15"], ("inside = true;", "inside = true; if (count_ == 0) return observer_errors::ok;"))
C("bad", "guard-deliver", ["C15"], ("if (inside) [[unlikely]]\n", "if (inside && count_ > 0) observers_[0]->notification(this, n); if (inside)\n"))
C("bad", "guard-cond", ["C15", "C14"], ("if (inside) [[unlikely]]", "if (inside && count_ > 1)"))
C("good", "guard-raii", ch, ("inside = true;", "struct G { volatile bool& b; G(volatile bool& x) : b(x) { b = true; } ~G() { b = false; } } g{inside};"), ("        inside = false;\n        return observer_errors::ok;", "        return observer_errors::ok;"))
C("good", "guard-int", ch, ("volatile bool inside{}", "volatile int inside{}"), ("inside = true;", "inside = inside + 1;"), ("inside = false;", "inside = inside - 1;"))
C("good", "guard-order", ch, ("        if (count_ > max_observers) [[unlikely]]\n            return observer_errors::internal_data_broken;\n        if (inside) [[unlikely]]\n            return observer_errors::notify_recursion_detected;", "        if (inside)\n            return observer_errors::notify_recursion_detected;\n        if (count_ > max_observers)\n            return observer_errors::internal_data_broken;"))
C("good", "guard-neg", ch, ("volatile bool inside{}", "volatile bool idle{true}"), ("if (inside)", "if (!idle)"), ("inside = true;", "idle = false;"), ("inside = false;", "idle = true;"))
C("bad", "d-dup", ["C12"], (DADD, "observers_.push_back(&observer);"))
C("bad", "d-front", ["C12"], (DADD, DADD.replace("push_back(&observer)", "insert(observers_.begin(), &observer)")))
C("bad", "d-twice", ["C12"], (DADD, DADD.replace("observers_.push_back(&observer);", "observers_.push_back(&observer); if (observers_.size() > 7) observers_.push_back(&observer);")))
C("bad", "d-code", ["C12"], ("exception{observer_errors::already_contains}", "exception{observer_errors::list_is_full}"))
C("bad", "d-skip", ["C12"], ("""        for (auto& item : observers_) {
            if (item == &observer) [[unlikely]]
                return true;""", """        for (auto& item : observers_) {
            if (item == &observer && &item != observers_.data())
                return true;"""))
C("bad", "d-remsilent", ["C13"], (DREM, "std::erase(observers_, &observer);"))
C("bad", "d-remswap", ["C13"], (DREM, "auto it = std::find(observers_.begin(), observers_.end(), &observer); if (it == observers_.end()) throw exception{observer_errors::not_found}; *it = observers_.back(); observers_.pop_back();"))
C("bad", "d-remtail", ["C13"], (DREM, "auto it = std::find(observers_.begin(), observers_.end(), &observer); if (it == observers_.end()) throw exception{observer_errors::not_found}; observers_.erase(it, observers_.end());"))
C("bad", "d-remcode", ["C13"], ("exception{observer_errors::not_found}", "exception{observer_errors::already_contains}"))
C("bad", "d-notskip", ["C14"], (DNOT, "for (std::size_t i = 0; i + 1 < observers_.size() || i == 0; ++i) observers_[i]->notification(static_cast<void*>(this), n);"))
C("bad", "d-notrev", ["C14"], (DNOT, "for (auto it = observers_.rbegin(); it != observers_.rend(); ++it) (*it)->notification(static_cast<void*>(this), n);"))
C("bad", "d-notsrc", ["C14"], (DNOT, DNOT.replace("static_cast<void*>(this)", "static_cast<void const*>(&n)")))
C("bad", "d-clrorder", ["C16"], (DCLR, "observers_.clear();\n" + DCLR))
C("bad", "d-clrnot", ["C16"], (DCLR, DCLR.replace("observers_.clear();", "observers_.shrink_to_fit();")))
C("bad", "d-clrfirst", ["C16"], (DCLR, "if (!observers_.empty()) observers_.front()->disconnect(static_cast<void*>(this));\nobservers_.clear();"))
C("good", "d-find", ch, (DREM, "auto it = std::find(observers_.begin(), observers_.end(), &observer); if (it == observers_.end()) throw exception{observer_errors::not_found}; observers_.erase(it);"))
C("good", "d-idiom", ch, (DREM, "auto it = std::remove(observers_.begin(), observers_.end(), &observer); if (it == observers_.end()) throw exception{observer_errors::not_found}; observers_.erase(it, observers_.end());"))
C("good", "d-idx", ch, (DNOT, "for (std::size_t i = 0; i < observers_.size(); ++i) observers_[i]->notification(this, n);"))
C("good", "d-addrev", ch, (DADD, "if (contains(observer)) throw exception{observer_errors::already_contains}; observers_.emplace_back(&observer);"))
C("good", "d-clrswap", ch, (DCLR, "for (std::size_t i = 0; i < observers_.size(); ++i) observers_[i]->disconnect(this); observers_.erase(observers_.begin(), observers_.end());"))
for nm, f in (("o", O), ("v", V)):
    C = lambda kind, i, ch, *subs: CASES.append((kind, f"{nm}-{i}", ch, f, list(subs)))
    C("good", "contflag", ch, (CONT, "bool found = false; for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer) found = true; } return found;"))
    C("good", "contflag2", ch, (CONT, "bool found = false; for (size_type i = 0; i < count_ && !found; ++i) { found = observers_[i] == &observer; } return found;"))
    C("good", "contor", ch, (CONT, "bool found = false; for (size_type i = 0; i < count_; ++i) { found |= observers_[i] == &observer; } return found;"))
    C("good", "contidxvar", ch, (CONT, "int at = -1; for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer) { at = (int)i; break; } } return at >= 0;"))
    C("good", "contbound", ch, (CONT, "size_type const e = std::min<size_type>(count_, max_observers); for (size_type i = 0; i != e; ++i) { if (observers_[i] == &observer) return true; } return false;"))
    C("bad", "contlast", ["C12"], (CONT, "bool found = false; for (size_type i = 0; i < count_; ++i) { found = observers_[i] == &observer; } return found;"))
    C("bad", "contskip2", ["C12"], (CONT, "for (size_type i = 0; i < count_; ++i) { if (observers_[i] == &observer && i != 3) return true; } return false;"))
    C("bad", "contcap", ["C12"], (CONT, "for (size_type i = 0; i < count_ && i < 2; ++i) { if (observers_[i] == &observer) return true; } return false;"))
