#pragma once
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <stdlib.h>
#include <unistd.h>
#include <cstdio>
#include <string>

// a self-signed certificate of our own, in a scratch directory
static std::string scratch;
static void certificate() {
    if (!scratch.empty()) {
        return;
    }
    char d[] = "/tmp/ion-sim-XXXXXX";
    scratch = mkdtemp(d);
    EVP_PKEY* key = EVP_EC_gen("P-256");
    X509* x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400L * 365);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char*>("localhost"), -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    FILE* f = fopen((scratch + "/cert.pem").c_str(), "w");
    PEM_write_X509(f, x);
    fclose(f);
    f = fopen((scratch + "/key.pem").c_str(), "w");
    PEM_write_PrivateKey(f, key, nullptr, nullptr, 0, nullptr, nullptr);
    fclose(f);
    X509_free(x);
    EVP_PKEY_free(key);
    atexit([] {
        unlink((scratch + "/cert.pem").c_str());
        unlink((scratch + "/key.pem").c_str());
        rmdir(scratch.c_str());
    });
}

