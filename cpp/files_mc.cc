// Every short history of writes through nisaba/port's file classes, and every
// short content through its readers, against plain strings.
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <memory>
#include <sstream>

#include "google/protobuf/wrappers.pb.h"
#include "google/protobuf/text_format.h"
#include "harness.h"
#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/port/proto_file_stream.h"

namespace {

mc::Reporter r;
std::string g_dir;

std::string Slurp(const std::string &path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

void Spill(const std::string &path, const std::string &text) {
  std::ofstream out(path, std::ios::binary);
  out << text;
}

std::string Bytes(int n) {  // distinct, to tell positions apart
  static int next = 0;
  std::string s;
  for (int i = 0; i < n; ++i) s += static_cast<char>('!' + next++ % 90);
  return s;
}

// --- ProtoFileOutputStream ---------------------------------------------------

enum StreamOp { kNext, kNextAll, kBack1, kBackHalf, kBackAll, kFlush };
const char *const kStreamNames[] = {"next ", "fill ", "back1 ", "backhalf ",
                                    "backall ", "flush "};

void Stream(const std::vector<int> &ops, int block, int ending) {
  const std::string path = g_dir + "/stream";
  std::string want, name = "block " + std::to_string(block) + ": ";
  File *f = File::Open(path.c_str(), "w");
  auto s = std::make_unique<nisaba::proto::ProtoFileOutputStream>(f, block);
  int last = 0;  // size of the buffer of the last Next, 0 if none
  bool bad = false;
  for (int op : ops) {
    name += kStreamNames[op];
    if (op == kNext || op == kNextAll) {
      void *data = nullptr;
      int size = 0;
      if (!s->Next(&data, &size) || size <= 0) {
        bad = true;
        break;
      }
      const std::string b = Bytes(size);
      memcpy(data, b.data(), size);
      want += b;
      last = size;
    } else if (op == kFlush) {
      if (!s->Flush()) bad = true;
      last = 0;
    } else if (last > 0) {
      const int k = op == kBack1 ? 1 : op == kBackHalf ? last / 2 : last;
      if (k <= last) {
        s->BackUp(k);
        want.resize(want.size() - k);
      }
      last = 0;
    }
    if (s->ByteCount() != static_cast<int64_t>(want.size()))
      r.Bad("stream", "ByteCount", name, std::to_string(s->ByteCount()),
            std::to_string(want.size()));
  }
  bool closed = true;
  switch (ending) {
    case 0:
      name += "close";
      closed = s->Close();
      s.reset();
      break;
    case 1:
      name += "flush, close";
      if (!s->Flush()) bad = true;
      closed = s->Close();
      s.reset();
      break;
    case 2:
      name += "destroy";
      s->SetCloseOnDelete(true);
      s.reset();
      break;
    default:
      name += "destroy, close the file";
      s->SetCloseOnDelete(false);
      s.reset();
      closed = f->Close();
      break;
  }
  r.Case("stream", ops.size() + 2);
  if (bad || !closed) r.Bad("stream", "failed", name, "", "");
  r.Equal("stream", "contents", name, Slurp(path), want);
  delete f;
}

// A full device: the loss of data is reported.
void FullDevice() {
  for (int n : {1, 3, 5000, 100000}) {
    for (int ending = 0; ending < 2; ++ending) {
      File *f = File::Open("/dev/full", "w");
      if (f == nullptr) return;
      r.Case("full device");
      const std::string b = Bytes(n);
      bool ok = true;
      if (ending == 0) {
        ok = file::WriteString(f, b, file::Defaults()).ok();
        ok = f->Flush() && ok;
        f->Close();
      } else {
        ok = f->WriteString(b) == b.size();
        ok = f->Close(file::Defaults()).ok() && ok;
      }
      if (ok)
        r.Bad("full device", "loss is not reported", std::to_string(n), "ok",
              "an error");
      delete f;
    }
  }
}

// --- File --------------------------------------------------------------------

void Plain(const std::vector<int> &ops, const char *mode) {
  const std::string path = g_dir + "/plain";
  const std::string before = "old1\nold2\n";
  Spill(path, before);
  std::string want = mode[0] == 'w' ? "" : before, name = mode;
  File *f = File::Open(path.c_str(), mode);
  if (f == nullptr || !f->Open()) {
    r.Bad("file", "Open", mode, "failed", "");
    return;
  }
  for (int op : ops) {
    bool ok = true;
    std::string b;
    switch (op) {
      case 0:
        name += " write0";
        ok = f->Write("", 0) == 0;
        break;
      case 1:
        name += " write3";
        b = Bytes(3);
        ok = f->Write(b.data(), 3) == 3;
        break;
      case 2:
        name += " string";
        b = Bytes(2) + std::string(1, '\0') + Bytes(1);
        ok = f->WriteString(b) == b.size();
        break;
      case 3:
        name += " line";
        b = Bytes(2);
        ok = f->WriteLine(b);
        b += "\n";
        break;
      case 4:
        name += " emptyline";
        ok = f->WriteLine("");
        b = "\n";
        break;
      case 5:
        name += " flush";
        ok = f->Flush();
        break;
      case 6:
        name += " status";
        b = Bytes(4);
        ok = file::WriteString(f, b, file::Defaults()).ok();
        break;
      case 7:
        name += " wrongflags";
        ok = !file::WriteString(f, "XYZ", file::Defaults() + 1).ok();
        break;
    }
    want += b;
    if (!ok) r.Bad("file", "failed", name, "", "");
    if (op == 5) {
      r.Equal("file", "contents after flush", name, Slurp(path), want);
      if (f->Size() != want.size())
        r.Bad("file", "Size", name, std::to_string(f->Size()),
              std::to_string(want.size()));
    }
  }
  if (!f->Close()) r.Bad("file", "Close", name, "", "");
  r.Case("file", ops.size() + 1);
  r.Equal("file", "contents", name, Slurp(path), want);
  delete f;
}

// --- readers -----------------------------------------------------------------

void Read(const std::string &text) {
  const std::string path = g_dir + "/text";
  r.Case("contents", 6);
  const absl::Status wrote = nisaba::file::WriteTextFile(path, text);
  if (!wrote.ok()) r.Bad("contents", "WriteTextFile fails", text, "", "");
  r.Equal("contents", "WriteTextFile", text, Slurp(path), text);
  const auto temp = nisaba::file::WriteTempTextFile("temp", text);
  if (!temp.ok() || *temp != nisaba::file::TempFilePath("temp"))
    r.Bad("contents", "WriteTempTextFile fails", text, "", "");
  else
    r.Equal("contents", "WriteTempTextFile", text, Slurp(*temp), text);
  for (int binary = 0; binary < 2; ++binary) {
    const auto got = binary ? nisaba::file::ReadBinaryFile(path)
                            : nisaba::file::ReadTextFile(path);
    const char *kind = binary ? "ReadBinaryFile" : "ReadTextFile";
    if (got.ok() != !text.empty())
      r.Bad("contents", kind, text, got.ok() ? "ok" : "error",
            text.empty() ? "error" : "ok");
    else if (got.ok())
      r.Equal("contents", kind, text, *got, text);
  }
  // Lines: without their ends, without the empty ones.
  std::vector<std::string> want;
  std::string line;
  auto end = [&] {
    if (!line.empty() && line.back() == '\r') line.pop_back();
    if (!line.empty()) want.push_back(line);
    line.clear();
  };
  for (char c : text) {
    if (c == '\n')
      end();
    else
      line += c;
  }
  end();
  for (int max : {-1, 64}) {
    const auto lines = nisaba::file::ReadLines(path, max);
    if (!lines.ok())
      r.Bad("contents", "ReadLines fails", text, "", "");
    else if (*lines != want)
      r.Bad("contents", "ReadLines", text, mc::Show(*lines), mc::Show(want));
  }
  // File: as a whole, up to a length, and line by line.
  for (int max = 0; max <= static_cast<int>(text.size()) + 1; ++max) {
    std::unique_ptr<File> f(File::Open(path.c_str(), "r"));
    std::string got = "before";
    const int64_t n = f->ReadToString(&got, max);
    const std::string part = text.substr(0, max);
    if (n != static_cast<int64_t>(part.size()) || got != part)
      r.Bad("contents", "ReadToString", text, got, part);
    f->Close();
  }
  std::unique_ptr<File> f(File::Open(path.c_str(), "r"));
  std::string got;
  char buffer[64];
  if (text.find('\0') == std::string::npos) {
    while (f->ReadLine(buffer, sizeof(buffer)) != nullptr) got += buffer;
    r.Equal("contents", "ReadLine", text, got, text);
  }
  f->Close();
  f.reset(File::Open(path.c_str(), "r"));
  got.clear();
  while (size_t n = f->Read(buffer, 2)) got.append(buffer, n);
  r.Equal("contents", "Read", text, got, text);
  if (f->Size() != text.size())
    r.Bad("contents", "Size", text, std::to_string(f->Size()), "");
  f->Close();
}

void Proto(const std::string &value) {
  const std::string path = g_dir + "/proto";
  google::protobuf::StringValue m, got;
  m.set_value(value);
  std::string text;
  google::protobuf::TextFormat::PrintToString(m, &text);
  for (int binary = 0; binary < 2; ++binary) {
    const std::string data = binary ? m.SerializeAsString() : text;
    if (data.empty()) continue;  // An empty file is an error.
    // Text is tried first, so a binary message that is also text is not binary.
    google::protobuf::TextFormat::Parser parser;
    google::protobuf::StringValue other;
    if (binary && parser.ParseFromString(data, &other)) continue;
    Spill(path, data);
    r.Case("messages", 3);
    got.Clear();
    if (!file::ReadFileToProto(path, &got) || got.value() != value)
      r.Bad("messages", binary ? "binary" : "text", value, got.value(), value);
    got.Clear();
    if (!file::GetTextProto(path, &got, file::Defaults()).ok() ||
        got.value() != value)
      r.Bad("messages", "GetTextProto", value, got.value(), value);
    if (file::GetTextProto(path, &got, file::Defaults() + 1).ok())
      r.Bad("messages", "wrong flags", value, "ok", "error");
  }
}

// Files and limits around the sizes of buffers.
void Big(int shard, int shards) {
  const std::string path = g_dir + "/big";
  std::vector<int> sizes;
  for (int base : {4096, 8192, 32768, 65536, 2 << 20, 4 << 20, 6 << 20})
    for (int d : {-1, 0, 1}) sizes.push_back(base + d);
  int i = 0;
  for (int size : sizes) {
    if (i++ % shards != shard) continue;
    std::string text;
    for (int k = 0; k < size; ++k) text += static_cast<char>(k * 31 + k / 251);
    const std::string name = std::to_string(size);
    r.Case("large files", 4 + sizes.size());
    if (!nisaba::file::WriteTextFile(path, text).ok())
      r.Bad("large files", "WriteTextFile", name, "error", "");
    for (int binary = 0; binary < 2; ++binary) {
      const auto got = binary ? nisaba::file::ReadBinaryFile(path)
                              : nisaba::file::ReadTextFile(path);
      if (!got.ok() || *got != text)
        r.Bad("large files", "ReadFile", name, "", "the contents");
    }
    for (int max : sizes) {
      std::unique_ptr<File> f(File::Open(path.c_str(), "r"));
      std::string got;
      const int64_t n = f->ReadToString(&got, max);
      const std::string part = text.substr(0, max);
      if (n != static_cast<int64_t>(part.size()) || got != part)
        r.Bad("large files", "ReadToString",
              name + " bytes, limit " + std::to_string(max),
              std::to_string(n), std::to_string(part.size()));
      f->Close();
    }
    // One long line between short ones.
    std::string line(size, 'x');
    if (!nisaba::file::WriteTextFile(path, "a\n" + line + "\nb").ok())
      r.Bad("large files", "WriteTextFile", name, "error", "");
    const auto lines = nisaba::file::ReadLines(path, size + 1);
    if (!lines.ok() || *lines != std::vector<std::string>{"a", line, "b"})
      r.Bad("large files", "ReadLines", name, "", "three lines");
  }
  File::Delete(path.c_str());
}

void Paths() {
  const std::vector<std::string> kParts = {"/", "a", "b.c", "."};
  std::vector<std::string> all;
  mc::Sequences<std::string>(kParts, 3, [&](const std::vector<std::string> &p) {
    std::string s;
    for (auto &x : p) s += x;
    all.push_back(s);
  });
  for (auto &dir : all) {
    for (auto &base : all) {
      r.Case("paths");
      std::string want;
      if (dir.empty() || base[0] == '/')
        want = base;
      else if (dir.back() == '/')
        want = dir + base;
      else
        want = dir + "/" + base;
      r.Equal("paths", "JoinPath", dir + " + " + base,
              nisaba::file::JoinPath(dir, base), want);
    }
  }
  // Files that are not there.
  const std::string none = g_dir + "/none/none";
  r.Case("no such file", 7);
  google::protobuf::StringValue m;
  if (nisaba::file::ReadLines(none).ok() ||
      nisaba::file::ReadTextFile(none).ok() ||
      nisaba::file::ReadBinaryFile(none).ok() ||
      nisaba::file::WriteTextFile(none, "x").ok() ||
      File::Open(none.c_str(), "r") != nullptr || File::Exists(none.c_str()) ||
      File::Delete(none.c_str()) || file::ReadFileToProto(none, &m))
    r.Bad("no such file", "no error", none, "", "");
  const std::string some = g_dir + "/some";
  Spill(some, "x");
  if (!File::Exists(some.c_str()) || !File::Delete(some.c_str()) ||
      File::Exists(some.c_str()))
    r.Bad("no such file", "Exists, Delete", some, "", "");
}

}  // namespace

int main(int argc, char **argv) {
  const int shard = atoi(argv[1]), shards = atoi(argv[2]);
  const bool thorough = atoi(argv[3]);
  g_dir = std::string(argv[4]) + "/files" + argv[1];
  if (mkdir(g_dir.c_str(), 0700) != 0) return 3;
  setenv("TMPDIR", g_dir.c_str(), 1);
  int i = 0;
  auto mine = [&] { return i++ % shards == shard; };
  mc::Sequences<int>({kNext, kBack1, kBackHalf, kBackAll, kFlush},
                     thorough ? 6 : 5, [&](const std::vector<int> &ops) {
                       if (!mine()) return;
                       for (int block : {1, 2, 3, 8})
                         for (int ending = 0; ending < 4; ++ending)
                           Stream(ops, block, ending);
                       if (ops.size() <= 3)
                         for (int ending = 0; ending < 4; ++ending)
                           Stream(ops, -1, ending);
                     });
  mc::Sequences<int>({0, 1, 2, 3, 4, 5, 6, 7}, thorough ? 5 : 4,
                     [&](const std::vector<int> &ops) {
                       if (!mine()) return;
                       for (const char *mode : {"w", "a", "w+"})
                         Plain(ops, mode);
                     });
  mc::Sequences<int>({'\n', '\r', 'a', ' ', 0, 0xff, '\t'}, thorough ? 6 : 4,
                     [&](const std::vector<int> &chars) {
                       if (!mine()) return;
                       std::string s;
                       for (int c : chars) s += static_cast<char>(c);
                       Read(s);
                     });
  mc::Sequences<int>({'\n', '"', 'a', ':', 0, 0xe0a4, '{', '#'},
                     thorough ? 5 : 4, [&](const std::vector<int> &chars) {
                       if (!mine()) return;
                       std::string s;
                       for (int c : chars)
                         s += c == 0xe0a4 ? std::string("\xe0\xa4\x95")
                                          : std::string(1, c);
                       Proto(s);
                     });
  Big(shard, shards);
  if (shard == 0) {
    Paths();
    FullDevice();
  }
  r.Done();
  return 0;
}
