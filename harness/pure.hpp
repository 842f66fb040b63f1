#ifndef VERIF_PURE_HPP
#define VERIF_PURE_HPP
#include <string>
namespace vh
{
    // A result that stays alive while other calls are made. text() is "1" or "0", then the contents of all groups, each behind a bar.
    struct Held
    {
        virtual ~Held() = default;
        virtual std::string text() const = 0;
    };

    // The ways an input is handed over. Ops HELD + 3 * form + op leave a Held object in Obs::problem.
    enum Form { POINTERS, STRING, RVALUE, VIEW, LIST, OWNED, FORMS };
    inline constexpr int HELD = 30;

    // Called at every iterator step; set by the driver
    extern void (*point_hook)();
    inline void point()
    {
        if (point_hook)
            point_hook();
    }
}
#endif
