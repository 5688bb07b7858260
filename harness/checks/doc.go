// Package checks registers every check.
package checks
