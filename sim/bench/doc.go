// Package bench is /repo's command-line tool as an importable package: the build overlay adds copies
// of its main package here, with gnark's frontend replaced by simfrontend.
package bench
