#!/bin/bash
# Makes the certificates of C25/C26 in harness/certs (committed; run again only to change them).
set -e
D=$(cd "$(dirname "$0")/../harness/certs" && pwd)
W=$(mktemp -d); cd "$W"
mkdir new; : > index.txt; echo 1000 > serial
cat > ca.cnf <<C
[ca]
default_ca=d
[d]
dir=$W
new_certs_dir=$W/new
database=$W/index.txt
serial=$W/serial
policy=p
default_md=sha256
unique_subject=no
copy_extensions=none
[p]
commonName=supplied
C
key() { openssl genrsa -traditional -out $1.key 2048 2>/dev/null; }
# cert NAME CN SIGNER|self FROM TO EXTENSIONS
cert() {
  [ -f $1.key ] || key $1
  openssl req -new -key $1.key -subj "/CN=$2" -out $1.csr 2>/dev/null
  printf "%b" "[e]\nsubjectKeyIdentifier=hash\n$6\n" > $1.ext
  local s="-cert $3.pem -keyfile $3.key"; [ "$3" = self ] && s="-selfsign -keyfile $1.key"
  openssl ca -batch -notext -config ca.cnf -in $1.csr -out $1.pem $s -startdate $4 -enddate $5 -extfile $1.ext -extensions e >>log 2>&1 || { cat log; exit 1; }
}
F=20000101000000Z; T=20991231235959Z
CA="basicConstraints=critical,CA:TRUE"
cert ca_a "Test CA" self $F $T "$CA"
cert ca_b "Other CA" self $F $T "$CA"
cert ca_fake "Test CA" self $F $T "$CA"
cert ca_old "Old CA" self $F 20010101000000Z "$CA"
NC="basicConstraints=CA:FALSE"
S="$NC\nsubjectAltName=DNS:good.test,DNS:*.wild.test"
cert good good.test ca_a $F $T "$S"
cert other other.test ca_a $F $T "$NC\nsubjectAltName=DNS:other.test"
cert byb good.test ca_b $F $T "$S"
cert fake good.test ca_fake $F $T "$S"
cert self good.test self $F $T "$S"
cert expired good.test ca_a $F 20010101000000Z "$S"
cert future good.test ca_a 20900101000000Z $T "$S"
cert oldca good.test ca_old $F $T "$S"
cert int_a "Intermediate" ca_a $F $T "$CA"
cert leaf good.test int_a $F $T "$S"
cert cnonly good.test ca_a $F $T "$NC"
cert sanwins good.test ca_a $F $T "$NC\nsubjectAltName=DNS:other.test"
openssl genrsa -traditional -out weak.key 1024 2>/dev/null
cert weak good.test ca_a $F $T "$S"
sed -i 's/default_md=sha256/default_md=sha1/' ca.cnf; cert sha1 good.test ca_a $F $T "$S"; sed -i 's/default_md=sha1/default_md=sha256/' ca.cnf
cert bygood good.test good $F $T "$S"
cp good.pem wrongkey.pem; cp other.key wrongkey.key
cat leaf.pem int_a.pem > chain.pem; cp leaf.key chain.key
cat bygood.pem good.pem > noca.pem; cp bygood.key noca.key
# a certificate whose signature has been altered
openssl x509 -in good.pem -outform der -out t.der
python3 - <<'P'
b=bytearray(open('t.der','rb').read()); b[-3]^=1; open('t.der','wb').write(b)
P
openssl x509 -inform der -in t.der -out badsig.pem 2>/dev/null || { echo "-----BEGIN CERTIFICATE-----"; base64 -w64 t.der; echo "-----END CERTIFICATE-----"; } > badsig.pem
cp good.key badsig.key
cat ca_a.pem ca_b.pem > both.pem
openssl genrsa -traditional -out rsa.key 1024 2>/dev/null
openssl req -x509 -new -key rsa.key -subj "/CN=rsa.test" -days 30000 -out rsa.pem 2>/dev/null
rm -f "$D"/*
for n in ca_a ca_b ca_fake ca_old both int_a good; do cp $n.pem "$D/"; done
for n in good other byb fake self expired future oldca leaf chain cnonly sanwins noca wrongkey badsig rsa weak sha1; do cp $n.pem $n.key "$D/"; done
cd /; rm -r "$W"
