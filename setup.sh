#!/bin/bash
# Checks that the specification parses and its own tests pass.  Nothing is built
# that the checks need: each builds /repo's current tree on its own.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
unset PYTHONPATH
quint test --backend typescript --main fixed spec/fixed.qnt || exit 1
ls spec/m_*.qnt spec/draws.qnt spec/history.qnt | xargs -P 8 -I{} sh -c 'quint typecheck {} > /dev/null || { echo "typecheck of {} failed"; exit 255; }' || exit 1
echo "specification ok"
