// The simulated locale of the C library.
#pragma once
namespace rt {
/// functions of the C library answer as under another locale than "C"
extern bool hostile_locale;
}
