#include "driver.hpp"
int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::stringstream ss(line);
        std::string id, op, msg, payload, args;
        std::getline(ss, id, ' ');
        std::getline(ss, op, ' ');
        std::getline(ss, msg, ' ');
        std::getline(ss, payload, ' ');
        std::getline(ss, args, ' ');
        auto it = drv::registry().find(msg);
        auto r  = it == drv::registry().end() ? std::string("?msg") : it->second(op, payload, args);
        std::cout << id << ' ' << r << '\n' << std::flush;
    }
}
