// Force-included by the analyser only: the installed Ipopt (3.11) has no
// OptionsList::SetBoolValue, which Adaptor.cpp uses.
#define SetBoolValue(name, val) SetStringValue(name, (val) ? "yes" : "no")
