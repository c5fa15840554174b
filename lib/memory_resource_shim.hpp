#pragma once
// hazard_ptr.hpp includes a header of this name that the repository does not have, and only names these two things in code
// that nothing uses
namespace std { namespace pmr { class memory_resource; inline memory_resource* get_default_resource() { return nullptr; } } }
