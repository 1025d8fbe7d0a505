#!/bin/sh
# regenerates h/table.go (the native replay's registry of harness functions)
cd "$(dirname "$0")/h" || exit 1
{
  echo '// Code generated by gen.sh. DO NOT EDIT.'
  echo
  echo 'package h'
  echo
  echo '// Table lists the harnesses by name.'
  echo 'var Table = map[string]func(){'
  cat c*.go | grep -o '^func C[0-9][0-9]_[A-Za-z0-9_]*()' | sort | sed 's/^func \(.*\)()$/	"\1": \1,/'
  echo '}'
} > table.go.tmp && gofmt table.go.tmp > table.go && rm -f "$PWD/table.go.tmp"
