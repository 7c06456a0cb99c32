// runs code under a locale other than C; the locales are made by run.py (LOCPATH)
#pragma once
#include "pbt.hpp"
#include <clocale>
inline const char* pick_locale(pbt::Src& s, unsigned one_in = 6) { return s.chance(1, one_in) ? s.pick({ "de_DE.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9" }) : "C"; }
struct InLocale {	// does nothing where the locale could not be made
	std::string was; bool on = false;
	InLocale(const char* name, pbt::Case* c = nullptr) { if (!strcmp(name, "C")) return; was = setlocale(LC_ALL, nullptr); on = setlocale(LC_ALL, name) != nullptr; if (c) { c->note(std::string("\nlocale ") + name + (on ? "" : " (missing)") + "\n"); c->label(on ? "other locale" : "locale missing"); } }
	~InLocale() { if (on) setlocale(LC_ALL, was.c_str()); }
	InLocale(const InLocale&) = delete;
};
