/* The generated parser wants ANTLR 4.12; the installed C++ runtime is 4.10.
 * What is missing is antlr4::internal::OnceFlag / call_once. */
#ifdef __cplusplus
#include <mutex>
#include <utility>
#include <antlr4-runtime.h>
namespace antlr4 { namespace internal {
using OnceFlag = std::once_flag;
template <class C, class... A> void call_once(OnceFlag& f, C&& c, A&&... a)
{ std::call_once(f, std::forward<C>(c), std::forward<A>(a)...); }
} }
#endif
