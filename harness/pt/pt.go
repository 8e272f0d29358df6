// Package pt holds the scheduling hook of the instrumented build (C17).
package pt

// P, when set, is called before every statement of the code under test.
var P func()
