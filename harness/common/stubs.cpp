// Platform services that exist on the target only (QNX typed memory daemon, sealed shared memory): not available.
#include "score/memory/shared/sealedshm/sealedshm_wrapper/sealed_shm.h"
#include "score/memory/shared/typedshm/typedshm_wrapper/typed_memory.h"
#include "score/memory/shared/typedshm/utils/typed_memory_utils.h"
#include <cerrno>
namespace score::memory::shared {
__attribute__((weak)) std::optional<uid_t> AcquireTypedMemoryDaemonUid() noexcept { return std::nullopt; }
namespace {
class NoSealedShm final : public ISealedShm {
  public:
    NoSealedShm() = default;
    score::cpp::expected<std::int32_t, score::os::Error> OpenAnonymous(const mode_t) noexcept override { return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOSYS)); }
    score::cpp::expected_blank<score::os::Error> Seal(int, std::uint64_t) noexcept override { return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOSYS)); }
};
}  // namespace
__attribute__((weak)) ISealedShm& SealedShm::instance() noexcept { static NoSealedShm s; return s; }
__attribute__((weak)) std::shared_ptr<TypedMemory> TypedMemory::Default() noexcept { return nullptr; }
}  // namespace score::memory::shared
