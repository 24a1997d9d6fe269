enum class kind8 : std::uint8_t {};
enum class kind32 : std::int32_t {};
#define KINDS(X) \
    X(u8, varint<u8>) X(u16, varint<u16>) X(u32, vuint32_t) X(u64, vuint64_t) \
    X(i8, varint<std::int8_t>) X(i16, varint<std::int16_t>) X(i32, vint32_t) X(i64, vint64_t) \
    X(s8, varint<std::int8_t, varint_encoding::zig_zag>) X(s16, varint<std::int16_t, varint_encoding::zig_zag>) X(s32, vsint32_t) X(s64, vsint64_t) \
    X(e8, varint<kind8>) X(e32, varint<kind32>)
