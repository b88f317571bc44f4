// Work of C43 besides that of C40: codecs, mathematics, ciphers, textures and hashes.
static std::string codecWork(Rng r, const Env &) {
  using namespace uni;
  std::string seen;
  for (int k = 0; k < 60; k++) {
    const FormatDescr d{FormatType(1 + r.below(6)), DataType(1 + r.below(18))};
    const std::string in = r.bytes(16 * 20);
    try {
      FormatCodec &co = FormatCodec::Get(d);
      if (d.outType == FormatType::INT || d.outType == FormatType::UINT) {
        FormatCodec::ivec v;
        co.Sample(v, in.data(), 20);
        v.resize(20);
        co.GetValue(v[0], in.data());
        seen.append(reinterpret_cast<char *>(v.data()), v.size() * 16);
      } else {
        FormatCodec::fvec v;
        co.Sample(v, in.data(), 20);
        v.resize(20);
        co.GetValue(v[0], in.data());
        seen.append(reinterpret_cast<char *>(v.data()), v.size() * 16);
      }
    } catch (const std::out_of_range &) {
      seen += "R";
    } catch (const std::runtime_error &ex) {
      seen += ex.what();
    }
  }
  return seen;
}
static std::string mathWork(Rng r, const Env &) {
  std::ostringstream o;
  for (int k = 0; k < 20; k++) {
    const auto v = [&] { return Vector4A16(r.range(-50, 50) / 8.f, r.range(-50, 50) / 8.f, r.range(1, 50) / 8.f, 1.f); };
    esMatrix44 a, b;
    Vector4A16 pos = v(), rot = v().Normalized(), scale = v();
    a.Compose(pos, rot, scale);
    b.Compose(v(), v().Normalized(), Vector4A16(1, 1, 1, 0));
    esMatrix44 m = a * b;
    Vector4A16 p, q, s;
    b.Decompose(p, q, s);
    for (auto &row : m.v)
      o << row << ';';
    o << p << q << s << m.ToQuat() << Vector(1, 2, r.below(5));
    o << std::to_string(IVector(1, r.below(70), -3));
  }
  return o.str();
}
static std::string cipherWork(Rng r, const Env &) {
  std::string seen;
  for (int k = 0; k < 2; k++) {
    const std::string key = r.text(4 + r.below(40)), data = r.bytes(8 * (1 + r.below(30)));
    std::string d = data;
    BlowfishEncoder e;
    BlowfishEncoder2 f;
    e.Mode(decltype(BlowfishEncoder::ECB)(r.below(5)));
    static_cast<IEncryptor &>(e).SetKey(key);
    f.SetKey(key.data(), int(key.size()));
    e.Encode(&d[0], d.size());
    seen += d;
    f.Encode(&d[0], d.size());
    f.Decode(&d[0], d.size());
    seen += d;
    XOREncoder x;
    x.SetKey(key);
    x.Encode(&d[0], d.size());
    seen += d;
  }
  return seen;
}
static std::string textureWork(Rng r, const Env &) {
  std::string seen;
  for (int k = 0; k < 10; k++) {
    DDS d;
    d.width = 1 + r.below(4096);
    d.height = 1 + r.below(4096);
    d.NumMipmaps(r.below(10));
    d = DDSFormat_DX10;
    const uint32 f = r.below(116);
    memcpy(&d.dxgiFormat, &f, 4);
    d.ComputeBPP();
    DDS::Mips m;
    seen += std::to_string(d.ComputeBufferSize(m)) + ",";
    const std::string in = r.bytes(16);
    std::string out(4 * 4 * 4, 0);
    DecodeBC1Block(in.data(), &out[0], 0, 0, 1);
    DecodeBC3Block(in.data(), &out[0], 0, 0, 1);
    seen += out;
    MortonSettings s(64, 128);
    for (int n = 0; n < 50; n++)
      seen += std::to_string(MortonAddr(r.below(64), r.below(128), s)) + ",";
  }
  return seen;
}
static std::string hashWork(Rng r, const Env &) {
  std::string seen;
  for (int k = 0; k < 50; k++) {
    const std::string s = r.bytes(r.len(100, 3000));
    const es::string_view v(s);
    seen += std::to_string(JenkinsHash_(v)) + std::to_string(JenkinsHash3_(v, r.u32())) + std::to_string(JenHashCannon(v).raw()) + std::to_string(uint32_t(JenHash3(v)));
    const auto en = GetReflectedEnum<EnBits>();
    seen += en[r.below(en.size())].to_string() + std::to_string(en.values[en.size() - 1]);
  }
  return seen;
}
#define PRIVATE_WORK {"codecs", codecWork}, {"mathematics", mathWork}, {"ciphers", cipherWork}, {"textures", textureWork}, {"hashes", hashWork}
