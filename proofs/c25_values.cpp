// C25: optionals, variants, owning pointers, aggregates.
#include "c25_objects.h"

template <typename T>
T some()
{
    if constexpr (std::is_same_v<T, hidden>) {
        return hidden{7};
    } else {
        return T{};
    }
}
template <typename T>
void in_optional()
{
    using target = std::optional<T>;
    decoded<target>([] {
        target t;
        if (coin()) {
            t = some<T>();
        }
        return t;
    });
}
PROOF(optional) { in_optional<tracked>(); }
PROOF(optional_hidden) { in_optional<hidden>(); }
PROOF(optional_moody) { in_optional<moody>(); }
PROOF(optional_both) { in_optional<both>(); }
PROOF(optional_pair) { in_optional<std::pair<tracked, moody>>(); }
PROOF(optional_optional) { in_optional<std::optional<hidden>>(); }
PROOF(optional_pointer) { in_optional<std::unique_ptr<tracked>>(); }

template <typename... T>
void in_variant()
{
    using target = std::variant<T...>;
    decoded<target>([] {
        const auto k = vp_pick(any_below(sizeof...(T)), sizeof...(T) - 1);
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            std::optional<target> t;
            (void)((k == I && (t.emplace(std::in_place_index<I>, some<T>()), true)) || ...);
            return target{std::move(*t)};
        }(std::make_index_sequence<sizeof...(T)>());
    });
}
PROOF(variant) { in_variant<tracked, u16>(); }
PROOF(variant_hidden) { in_variant<hidden, tracked>(); }
PROOF(variant_many) { in_variant<u8, moody, hidden, std::pair<tracked, tracked>>(); }
PROOF(variant_optional) { in_variant<std::optional<tracked>, both>(); }
PROOF(variant_pointer) { in_variant<std::unique_ptr<tracked>, tracked>(); }

template <typename T>
void in_unique()
{
    decoded<std::unique_ptr<T>>([] {
        return coin() ? std::make_unique<T>(some<T>()) : nullptr;
    });
}
PROOF(unique) { in_unique<tracked>(); }
PROOF(unique_hidden) { in_unique<hidden>(); }
PROOF(unique_moody) { in_unique<moody>(); }
PROOF(unique_variant) { in_unique<std::variant<tracked, moody>>(); }
PROOF(unique_unique) { in_unique<std::unique_ptr<hidden>>(); }
PROOF(shared)
{
    decoded<std::shared_ptr<tracked>>([] {
        return coin() ? std::make_shared<tracked>() : nullptr;
    });
}

PROOF(aggregate) { decoded<both>([] { return both{}; }); }
PROOF(pair) { decoded<std::pair<tracked, moody>>([] { return std::pair<tracked, moody>{}; }); }
PROOF(tuple)
{
    using target = std::tuple<std::optional<hidden>, std::unique_ptr<tracked>, moody>;
    decoded<target>([] { return target{}; });
}
PROOF(array)
{
    using target = std::array<std::optional<hidden>, 3>;
    decoded<target>([] { return target{}; });
}
