// Package rx runs the harnesses of ../rx on the WebAssembly build.
package rx
