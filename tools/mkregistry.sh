#!/bin/sh
# regenerates harness/h/registry.go from the harness functions (func H...())
cd "$(dirname "$0")/../harness/h" || exit 1
{
  echo "// Code generated by tools/mkregistry.sh. DO NOT EDIT."
  echo
  echo "package h"
  echo
  echo "// All lists the harnesses by name."
  echo "var All = map[string]func(){"
  grep -ho '^func H[A-Za-z0-9_]*()' *.go | sed 's/^func \(H[A-Za-z0-9_]*\)()/\t"\1": \1,/' | sort
  echo "}"
} > registry.go.tmp && mv registry.go.tmp registry.go && gofmt -w registry.go
