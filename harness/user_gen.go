package main

// In the C20 check this file is replaced, through a build overlay, by the
// output of gentypes.
