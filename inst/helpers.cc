// Instantiates the inline helpers of /repo/src/internal_helper.h; contains no code of its own.
#include "internal_helper.h"
namespace jungle {
void* volatile verif_refs[] = {
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, const void*, size_t, uint64_t, uint64_t&)>(&append_file),
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint64_t, uint64_t, uint64_t&)>(&append_file_64), (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint32_t, uint64_t, uint64_t&)>(&append_file_32),
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint16_t, uint64_t, uint64_t&)>(&append_file_16), (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint8_t, uint64_t, uint64_t&)>(&append_file_8),
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, const void*, size_t)>(&append_file),
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint64_t)>(&append_file_64), (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint32_t)>(&append_file_32),
    (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint16_t)>(&append_file_16), (void*)static_cast<Status (*)(FileOps*, FileHandle*, uint8_t)>(&append_file_8),
    (void*)&read_file, (void*)&read_file_64, (void*)&read_file_32, (void*)&read_file_16, (void*)&read_file_8,
    (void*)&append_mem, (void*)&append_mem_64, (void*)&append_mem_32, (void*)&append_mem_16, (void*)&append_mem_8,
    (void*)&read_mem, (void*)&read_mem_64, (void*)&read_mem_32, (void*)&read_mem_16, (void*)&read_mem_8,
};
}
